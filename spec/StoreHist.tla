----------------------------- MODULE StoreHist -----------------------------
(* What the properties say about a whole history, checked against what the    *)
(* operations of Store do.  The history is the sequence of operations and      *)
(* their results; nothing below the line looks at the store but through the    *)
(* results of operations asked of it at the end of the history.                *)
EXTENDS Store

CONSTANTS Kind, Max, AccL, RefL, Profile, Depth

VARIABLES s, h

Tok == [a1 |-> [id |-> "u", ok |-> TRUE], a2 |-> [id |-> "u", ok |-> TRUE], r1 |-> [id |-> "u", ok |-> TRUE],
        r2 |-> [id |-> "u", ok |-> TRUE], b1 |-> [id |-> "v", ok |-> TRUE], s1 |-> [id |-> "v", ok |-> TRUE]]
Access == {"a1", "a2", "b1"}
C == [kind |-> Kind, max |-> Max, accL |-> AccL, refL |-> RefL, rejk |-> {}, mayk |-> {}, mayid |-> {}]

Cr(a, r, kv) == [op |-> "create", a |-> a, r |-> r, kv |-> kv]
Rf(a, r, na, nr) == [op |-> "refresh", a |-> a, r |-> r, na |-> na, nr |-> nr]

Events ==
  CASE Profile = "life" ->
        {Cr("a1", "r1", <<>>), Cr("b1", "s1", <<>>), Rf("a1", "r1", "a2", "r2"), Rf("a1", "r1", "a1", "r1"), Rf("a1", "r2", "a2", "r1"),
         Rf("a2", "r2", "a1", "r1"), [op |-> "destroy", id |-> "u"], [op |-> "destroytok", a |-> "a1"], [op |-> "check", a |-> "a1"]}
    [] Profile = "data" ->
        {Cr("a1", "r1", <<<<"k", "1">>>>), Cr("a2", "r2", <<>>), Rf("a1", "r1", "a2", "r1"), Rf("a2", "r1", "a1", "r1"),
         [op |-> "put", a |-> "a1", kv |-> <<<<"k", "2">>, <<"l", "1">>>>], [op |-> "put", a |-> "a2", kv |-> <<<<"k", "3">>>>],
         [op |-> "delete", a |-> "a1", ks |-> <<"k">>], [op |-> "delete", a |-> "a2", ks |-> <<"l", "m">>], [op |-> "destroytok", a |-> "a2"]}
    [] Profile = "cap" ->
        {Cr("a1", "r1", <<>>), Cr("a2", "r1", <<>>), Cr("b1", "s1", <<>>), Rf("a1", "r1", "a1", "r1"), Rf("a1", "r1", "a2", "r1"),
         Rf("a2", "r1", "a1", "r1"), [op |-> "destroytok", a |-> "a2"], [op |-> "destroy", id |-> "u"]}

Do(e) == \E o \in Outcomes(C, Tok, s, e) :
           /\ s' = o.st
           /\ h' = Append(h, [e |-> e, res |-> o.res, at |-> s.now])
Time == /\ s' = Tick(s, s.now + 1) /\ h' = Append(h, [e |-> [op |-> "tick"], res |-> "ok", at |-> s.now + 1])
Init == s = Empty /\ h = <<>>
Next == Len(h) < Depth /\ ((\E e \in Events : Do(e)) \/ Time)
Spec == Init /\ [][Next]_<<s, h>>
----------------------------------------------------------------------------
N == Len(h)
Ok(n, ops) == h[n].res = "ok" /\ h[n].e.op \in ops
(* Event n issues access token a. *)
Issues(n, a) == (Ok(n, {"create"}) /\ h[n].e.a = a) \/ (Ok(n, {"refresh"}) /\ h[n].e.na = a)
RefOf(n) == IF h[n].e.op = "create" THEN h[n].e.r ELSE h[n].e.nr

(* The events after which a token issued at event n is dead: another issue of    *)
(* the token, its refresh, its destruction, eviction, age.                       *)
RECURSIVE Alive(_, _, _)
Evicts(m, n, a) ==        \* the create at m evicts the token a issued at n
  /\ Max > 0 /\ Ok(m, {"create"}) /\ h[m].e.a # a
  /\ LET others == {q \in 1..(m - 1) : \E x \in Access : x # h[m].e.a /\ Issues(q, x) /\ Alive(q, x, m - 1) /\ h[m].at < h[q].at + RefL}
     IN  Cardinality(others) >= Max /\ \A q \in others : n <= q
Ends(m, n, a) ==
  \/ Issues(m, a)
  \/ Ok(m, {"refresh"}) /\ h[m].e.a = a
  \/ Ok(m, {"destroy"}) /\ Tok[a].id = h[m].e.id
  \/ Ok(m, {"destroytok"}) /\ h[m].e.a = a
  \/ Evicts(m, n, a)
Alive(n, a, upto) == \A m \in (n + 1)..upto : ~Ends(m, n, a)

(* C01, C02, C03, C06, C07 in one: the status of every token from the history alone. *)
Should(a) ==
  IF \E n \in 1..N : Issues(n, a) /\ Alive(n, a, N) /\ s.now < h[n].at + AccL THEN "ok"
  ELSE IF \E n \in 1..N : Issues(n, a) /\ Alive(n, a, N) /\ s.now < h[n].at + RefL THEN "expired"
  ELSE "notexists"
Answer(e) == {o.res : o \in Outcomes(C, Tok, s, e)}
StatusFromHistory == \A a \in Access : Answer([op |-> "check", a |-> a]) = {Should(a)}

(* C03: a refresh is granted exactly to the current pair, and so at most once.   *)
Current(a, r) == \E n \in 1..N : Issues(n, a) /\ RefOf(n) = r /\ Alive(n, a, N) /\ s.now < h[n].at + RefL
GrantedToCurrent == \A a \in {"a1", "a2"}, r \in {"r1", "r2"} : (Answer(Rf(a, r, a, r)) = {"ok"}) = Current(a, r)
AtMostOnce ==
  \A m, n \in 1..N :
    (m < n /\ Ok(m, {"refresh"}) /\ Ok(n, {"refresh"}) /\ h[m].e.a = h[n].e.a /\ h[m].e.r = h[n].e.r)
      => \E q \in m..(n - 1) : Issues(q, h[n].e.a)

(* C05: the value of a key is the last one written along the chain of refreshes. *)
RECURSIVE Val(_, _, _)
Last(kv, k) == LET I == {i \in DOMAIN kv : kv[i][1] = k}
               IN  IF I = {} THEN <<>> ELSE <<kv[CHOOSE i \in I : \A j \in I : j <= i][2]>>
Val(n, a, k) ==       \* after event n, in the session of token a; <<>>: none
  IF n = 0 THEN <<>>
  ELSE LET x == h[n]
       IN  CASE Ok(n, {"create"}) /\ x.e.a = a -> Last(x.e.kv, k)
             [] Ok(n, {"refresh"}) /\ x.e.na = a -> Val(n - 1, x.e.a, k)
             [] Ok(n, {"put"}) /\ x.e.a = a /\ k \in KeysOf(x.e.kv) -> Last(x.e.kv, k)
             [] Ok(n, {"delete"}) /\ x.e.a = a /\ k \in Range(x.e.ks) -> <<>>
             [] OTHER -> Val(n - 1, a, k)
DataFromHistory ==
  \A a \in Access : Should(a) = "ok" =>
    \A o \in Outcomes(C, Tok, s, [op |-> "get", a |-> a, ks |-> <<"l", "k">>]) :
      o.out = [i \in 1..2 |-> LET v == Val(N, a, <<"l", "k">>[i]) IN IF v = <<>> THEN <<FALSE, "">> ELSE <<TRUE, v[1]>>]
KeysFromHistory ==
  \A a \in Access : Should(a) = "ok" =>
    \A o \in Outcomes(C, Tok, s, [op |-> "keys", a |-> a]) : o.out = {k \in {"k", "l", "m"} : Val(N, a, k) # <<>>}

(* C07 *)
BoundFromHistory == Max > 0 => Cardinality({a \in Access : Should(a) # "notexists"}) <= Max
=============================================================================
