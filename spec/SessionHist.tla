---------------------------- MODULE SessionHist ----------------------------
(* C17 as a statement about histories, checked against SessionCache: two       *)
(* session objects and a stranger work on one session; calls to the store may   *)
(* fail.  Nothing below the line looks into a cache but through the answers of   *)
(* operations asked at the end of the history.                                   *)
EXTENDS SessionCache

CONSTANTS Depth,
          Mistake       \* "": none; "failed": a failed Put is kept in the cache; "stale": Delete forgets nothing;
                        \* "missing": a key once missing is not remembered
VARIABLES s, caches, h
vars == <<s, caches, h>>

Tok == [a1 |-> [id |-> "u", ok |-> TRUE], r1 |-> [id |-> "u", ok |-> TRUE]]
C == [kind |-> "mem", max |-> 0, accL |-> 2, refL |-> 3, rejk |-> {}, mayk |-> {}, mayid |-> {}]
Keys == {"k", "l"}
(* Two types: every value decodes as A, only "1" as B.                           *)
D(v, ty) == IF ty = "A" THEN [ok |-> TRUE, out |-> "A" \o v]
            ELSE IF v = "1" THEN [ok |-> TRUE, out |-> "B" \o v] ELSE [ok |-> FALSE, out |-> ""]

Inj == {"", "before", "after"}
G(k, ty, inj) == [op |-> "sget", k |-> k, ty |-> ty, tgt |-> "ptr", inj |-> inj]
P(kv, inj) == [op |-> "sput", kv |-> kv, bad |-> FALSE, inj |-> inj]
ObjEvents ==
  {G("k", "A", ""), G("k", "B", ""), G("k", "A", "before"), G("l", "A", ""),
   [op |-> "sprepare", ks |-> <<"k", "l">>, inj |-> ""], [op |-> "sprepare", ks |-> <<"l", "k">>, inj |-> "before"],
   P(<<<<"k", "1">>>>, ""), P(<<<<"k", "2">>, <<"l", "1">>>>, ""), P(<<<<"k", "3">>>>, "before"), P(<<<<"k", "3">>>>, "after"),
   [P(<<<<"k", "4">>>>, "") EXCEPT !.bad = TRUE],
   [op |-> "sdelete", a |-> "a1", ks |-> <<"k">>, inj |-> ""], [op |-> "sdelete", a |-> "a1", ks |-> <<"k", "l">>, inj |-> "before"],
   [op |-> "sdelete", a |-> "a1", ks |-> <<"k">>, inj |-> "after"]}
Strange == {[op |-> "put", a |-> "a1", kv |-> <<<<"k", "5">>>>], [op |-> "delete", a |-> "a1", ks |-> <<"k", "l">>],
            [op |-> "destroytok", a |-> "a1"]}

Ob(o) == [tok |-> "a1", cache |-> caches[o]]
Oops(o, e, x) ==
  CASE Mistake = "failed" /\ e.op = "sput" /\ ~e.bad /\ x.res # "ok" -> CachePut(caches[o], e.kv)
    [] Mistake = "stale" /\ e.op = "sdelete" -> caches[o]
    [] Mistake = "missing" /\ e.op = "sget" -> [k \in {j \in DOMAIN x.cache : x.cache[j].ex} |-> x.cache[k]]
    [] OTHER -> x.cache
Act(o, e) == \E x \in ObjOutcomes(C, Tok, s, Ob(o), e, D) :
               /\ s' = x.st /\ caches' = [caches EXCEPT ![o] = Oops(o, e, x)]
               /\ h' = Append(h, [o |-> o, e |-> e, res |-> x.res, out |-> x.out])
Other(e) == \E x \in Outcomes(C, Tok, s, e) :
               /\ s' = x.st /\ UNCHANGED caches
               /\ h' = Append(h, [o |-> 0, e |-> e, res |-> x.res, out |-> ""])
Time == s' = Tick(s, s.now + 2) /\ UNCHANGED caches /\ h' = Append(h, [o |-> 0, e |-> [op |-> "tick"], res |-> "ok", out |-> ""])

Init == /\ s = DoCreate(C, Empty, "a1", "r1", "u", <<<<"k", "1">>>>) /\ caches = <<<<>>, <<>>>> /\ h = <<>>
Next == Len(h) < Depth /\ (\/ \E e \in ObjEvents : Act(1, e)
                           \/ \E e \in {P(<<<<"k", "2">>, <<"l", "1">>>>, ""), [op |-> "sdelete", a |-> "a1", ks |-> <<"k">>, inj |-> ""]} : Act(2, e)
                           \/ \E e \in Strange : Other(e)
                           \/ Time)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
N == Len(h)
Dead(n) == \E q \in 1..n : h[q].e.op \in {"destroytok", "tick"}
LastOf(kv, k) == LET I == {j \in DOMAIN kv : kv[j][1] = k} IN kv[CHOOSE j \in I : \A q \in I : q <= j][2]

(* What the session holds for key k after event n; <<>>: nothing.                  *)
RECURSIVE InStore(_, _)
InStore(n, k) ==
  IF n = 0 THEN (IF k = "k" THEN <<"1">> ELSE <<>>)
  ELSE LET x == h[n]
           done == x.res = "ok" \/ ("inj" \in DOMAIN x.e /\ x.e.inj = "after" /\ ~Dead(n - 1))
       IN  CASE x.e.op \in {"put", "sput"} /\ done /\ k \in KeysOf(x.e.kv) -> <<LastOf(x.e.kv, k)>>
             [] x.e.op \in {"delete", "sdelete"} /\ done /\ k \in Range(x.e.ks) -> <<>>
             [] OTHER -> InStore(n - 1, k)

(* What object 1 knows of key k after event n: <<>> nothing, <<v>> with v = <<>>   *)
(* (missing) or <<value>>: put by it, or seen by it first, since its last Delete.   *)
RECURSIVE Knows(_, _)
Knows(n, k) ==
  IF n = 0 THEN <<>>
  ELSE LET x == h[n]
           before == Knows(n - 1, k)
       IN  IF x.o # 1 THEN before
           ELSE CASE x.e.op = "sput" /\ x.res = "ok" /\ k \in KeysOf(x.e.kv) -> <<<<LastOf(x.e.kv, k)>>>>
                  [] x.e.op = "sdelete" /\ x.res = "ok" /\ k \in Range(x.e.ks) -> <<>>
                  [] x.e.op = "sget" /\ x.res \in {"ok", "nokey"} /\ x.e.k = k /\ before = <<>> -> <<InStore(n - 1, k)>>
                  [] x.e.op = "sprepare" /\ x.res = "ok" /\ k \in Range(x.e.ks) /\ before = <<>> -> <<InStore(n - 1, k)>>
                  [] OTHER -> before
(* A value whose first decoding failed may be remembered or not.                    *)
RECURSIVE Unsure(_, _)
Unsure(n, k) ==
  IF n = 0 THEN FALSE
  ELSE LET x == h[n]
       IN  IF x.o # 1 THEN Unsure(n - 1, k)
           ELSE CASE x.e.op = "sput" /\ x.res = "ok" /\ k \in KeysOf(x.e.kv) -> FALSE
                  [] x.e.op = "sdelete" /\ x.res = "ok" /\ k \in Range(x.e.ks) -> FALSE
                  [] x.e.op = "sget" /\ x.e.k = k /\ x.res = "decerr" /\ Knows(n - 1, k) = <<>> -> TRUE
                  [] OTHER -> Unsure(n - 1, k)

Answers(e) == {<<x.res, x.out>> : x \in ObjOutcomes(C, Tok, s, Ob(1), e, D)}
Says(v, ty) == IF v = <<>> THEN {<<"nokey", "">>}
               ELSE IF D(v[1], ty).ok THEN {<<"ok", D(v[1], ty).out>>} ELSE {<<"decerr", "">>}
(* C17: what is known is answered whatever the store says; what is not known is       *)
(* asked of the store.                                                                *)
GetFromHistory ==
  \A k \in Keys, ty \in {"A", "B"} : ~Unsure(N, k) =>
    /\ Knows(N, k) # <<>> => \A inj \in Inj : Answers(G(k, ty, inj)) = Says(Knows(N, k)[1], ty)
    /\ Knows(N, k) = <<>> /\ ~Dead(N) => Answers(G(k, ty, "")) = Says(InStore(N, k), ty)
    /\ Knows(N, k) = <<>> /\ Dead(N) => Answers(G(k, ty, ""))  \subseteq {<<"expired", "">>, <<"notexists", "">>}
(* C17: writes through the object reach the store; C04: what fails does not change it. *)
StoreFromHistory ==
  ~Dead(N) => \A k \in Keys : \A x \in Outcomes(C, Tok, s, [op |-> "get", a |-> "a1", ks |-> <<k>>]) :
     x.out = <<IF InStore(N, k) = <<>> THEN <<FALSE, "">> ELSE <<TRUE, InStore(N, k)[1]>>>>
=============================================================================
