------------------------------ MODULE StoreMC ------------------------------
(* The abstract store, explored exhaustively: every operation of a profile in  *)
(* every reachable state.  Times only matter as differences, so the view        *)
(* subtracts the present and the state space is finite without a horizon.       *)
(* The properties are written without the operators that define the operations  *)
(* wherever they can be.  With Emit = TRUE every transition is printed; tours    *)
(* through the printed graph are executed on the real providers.                *)
EXTENDS Store, Json, TLCExt

CONSTANTS Kind, Max, AccL, RefL, Profile, Emit

VARIABLES s, last
vars == <<s, last>>

Tok == [a1 |-> [id |-> "u", ok |-> TRUE], a2 |-> [id |-> "u", ok |-> TRUE], a3 |-> [id |-> "u", ok |-> TRUE],
        r1 |-> [id |-> "u", ok |-> TRUE], r2 |-> [id |-> "u", ok |-> TRUE],
        b1 |-> [id |-> "v", ok |-> TRUE], b2 |-> [id |-> "v", ok |-> TRUE], s1 |-> [id |-> "v", ok |-> TRUE],
        bad |-> [id |-> "-", ok |-> FALSE]]

C == [kind |-> Kind, max |-> Max, accL |-> AccL, refL |-> RefL, rejk |-> IF Kind = "redis" THEN {"meta"} ELSE {}, mayk |-> {}, mayid |-> {}]

----------------------------------------------------------------------------
(* The operations of a profile *)
Create(P, KV) == {[op |-> "create", a |-> p[1], r |-> p[2], kv |-> kv] : p \in P, kv \in KV}
Refresh(A, R, P) == {[op |-> "refresh", a |-> a, r |-> r, na |-> p[1], nr |-> p[2]] : a \in A, r \in R, p \in P}
Plain(O, A) == {[op |-> o, a |-> a] : o \in O, a \in A}
Put(A, KV) == {[op |-> "put", a |-> a, kv |-> kv] : a \in A, kv \in KV}
Get(A, KS) == {[op |-> "get", a |-> a, ks |-> ks] : a \in A, ks \in KS}
Del(A, KS) == {[op |-> "delete", a |-> a, ks |-> ks] : a \in A, ks \in KS}
Destroy(I) == {[op |-> "destroy", id |-> i] : i \in I}
Bare(O) == {[op |-> o] : o \in O}

EmptyKV == {<<>>}
KVs == {<<>>, <<<<"k", "1">>>>, <<<<"k", "2">>>>, <<<<"l", "1">>, <<"k", "1">>>>, <<<<"k", "1">>, <<"k", "2">>>>}
       \cup (IF Kind = "redis" THEN {<<<<"k", "1">>, <<"meta", "x">>>>} ELSE {})
KSs == {<<>>, <<"k">>, <<"l", "k">>, <<"k", "k">>}

Events ==
  CASE Profile = "auth" ->
        Create({<<"a1", "r1">>, <<"a2", "r2">>, <<"b1", "s1">>, <<"bad", "r1">>, <<"a1", "bad">>}, EmptyKV)
        \cup Refresh({"a1", "a2"}, {"r1", "r2"}, {<<"a1", "r1">>, <<"a2", "r2">>, <<"a2", "r1">>, <<"a1", "r2">>})
        \cup Refresh({"a1"}, {"r1"}, {<<"b1", "s1">>, <<"a2", "s1">>, <<"bad", "r2">>, <<"a2", "bad">>})
        \cup Refresh({"a1", "bad"}, {"s1", "bad"}, {<<"a2", "r2">>})
        \cup Refresh({"b1"}, {"s1", "r1"}, {<<"b2", "s1">>, <<"b1", "s1">>})
        \cup Plain({"check", "destroytok"}, {"a1", "a2", "b1", "r1", "bad"})
        \cup Plain({"check"}, {"b2"})
        \cup Get({"a1", "r1", "bad"}, {<<"k">>}) \cup Plain({"keys"}, {"a2", "b1", "s1"})
        \cup Put({"a2", "r2", "bad"}, {<<<<"k", "1">>>>}) \cup Del({"b1", "bad"}, {<<"k">>})
        \cup Destroy({"u", "v"})
    [] Profile = "data" ->
        Create({<<"a1", "r1">>, <<"a2", "r2">>}, KVs)
        \cup Refresh({"a1", "a2"}, {"r1", "r2"}, {<<"a1", "r1">>, <<"a2", "r1">>})
        \cup Put({"a1", "a2"}, KVs) \cup Get({"a1", "a2"}, KSs) \cup Plain({"keys"}, {"a1", "a2"}) \cup Del({"a1", "a2"}, KSs)
        \cup Destroy({"u"}) \cup Plain({"destroytok"}, {"a1"})
    [] Profile = "cap" ->
        Create({<<"a1", "r1">>, <<"a2", "r1">>, <<"a3", "r1">>, <<"b1", "s1">>}, EmptyKV)
        \cup Refresh({"a1", "a2", "a3"}, {"r1", "r2"}, {<<"a1", "r1">>, <<"a3", "r1">>})
        \cup Refresh({"b1"}, {"s1"}, {<<"b2", "s1">>, <<"a1", "r1">>}) \cup Refresh({"b2"}, {"s1"}, {<<"b1", "s1">>})
        \cup Plain({"check", "destroytok"}, {"a1", "a2", "a3", "b1"}) \cup Plain({"check"}, {"b2"})
        \cup Destroy({"u", "v"})
    [] Profile = "close" ->
        Create({<<"a1", "r1">>, <<"bad", "r1">>}, {<<<<"k", "1">>>>}) \cup Refresh({"a1"}, {"r1", "r2"}, {<<"a2", "r2">>})
        \cup Plain({"check", "keys", "destroytok"}, {"a1", "a2", "bad"}) \cup Put({"a1"}, {<<>>, <<<<"k", "2">>>>}) \cup Get({"a1"}, {<<>>, <<"k">>})
        \cup Del({"a1"}, {<<>>, <<"k">>}) \cup Destroy({"u", "w"}) \cup Bare({"close"})


All == Events \cup (IF Kind = "bolt" THEN Bare({"clear"}) ELSE {})

----------------------------------------------------------------------------
Do(e) == \E o \in Outcomes(C, Tok, s, e) :
           /\ s' = o.st
           /\ last' = [e |-> e, res |-> o.res, out |-> o.out]
Time == /\ s' = Tick(s, s.now + 1)
        /\ last' = [e |-> [op |-> "tick"], res |-> "ok", out |-> None]
Sweep == /\ s.dead # {} /\ ~Emit
         /\ s' = Swept(s, s.now)
         /\ last' = [e |-> [op |-> "sweep"], res |-> "ok", out |-> None]

Init == /\ s = Empty /\ last = [e |-> [op |-> "open"], res |-> "ok", out |-> None]
Next == (\E e \in All : Do(e)) \/ Time \/ Sweep
Spec == Init /\ [][Next]_vars

(* A session as seen from now. *)
Rel(x) == [acc |-> x.acc, ref |-> x.ref, ad |-> IF x.ad <= s.now THEN 0 ELSE x.ad - s.now, rd |-> x.rd - s.now, data |-> x.data]
Seen == [open |-> s.open, sess |-> [i \in DOMAIN s.sess |-> Rel(s.sess[i])], dead |-> IF Emit THEN {} ELSE {<<x.acc, x.id>> : x \in s.dead}]

Edge == Emit => PrintT("EDGE " \o ToString(TLCFP(Seen)) \o " " \o ToString(TLCFP(Seen')) \o " " \o last'.res \o " " \o ToJson(last'.e))

----------------------------------------------------------------------------
(* Invariants *)
Find(x, a) == IF a \in Accs(x) THEN {Sess(x, a)} ELSE {}
Live == Range(s.sess)

OneHolder == \A i, j \in DOMAIN s.sess : i # j => s.sess[i].acc # s.sess[j].acc
IdOfToken == \A x \in Live : x.id = Tok[x.acc].id
NoneOutlives == \A x \in Live : s.now < x.rd /\ x.ad <= x.rd
Bounded == Max > 0 => Len(s.sess) <= Max
DeadAreDead == \A x \in s.dead : x.rd <= s.now /\ x.acc \notin Accs(s)

(* Every operation has an outcome, and all of them agree on the status of a token. *)
Asks(a) == Plain({"check", "keys"}, {a}) \cup Put({a}, {<<>>, <<<<"k", "1">>>>}) \cup Get({a}, {<<>>, <<"k">>}) \cup Del({a}, {<<>>, <<"k">>})
Answers(e) == {o.res : o \in Outcomes(C, Tok, s, e)}
Total == \A e \in All : Answers(e) # {}
AllAgree == \A a \in DOMAIN Tok : \A e, f \in Asks(a) : Answers(e) = Answers(f)
(* A refresh token is no access token, and only the pair held refreshes. *)
OnlyPairRefreshes ==
  s.open => \A a \in DOMAIN Tok, r \in DOMAIN Tok :
    LET e == [op |-> "refresh", a |-> a, r |-> r, na |-> "a3", nr |-> "r2"]
    IN  ("ok" \in Answers(e)) = (/\ Tok[a].ok /\ Tok[r].ok /\ Tok[a].id = "u" /\ Tok[r].id = "u"
                                 /\ \E x \in Live : x.acc = a /\ x.ref = r)

----------------------------------------------------------------------------
(* Action properties, one for each guarantee *)
e1 == last'.e
ok1 == last'.res = "ok"
Is(o) == e1.op \in o
Others(x, A) == SelectSeq(x.sess, LAMBDA y : y.acc \notin A)

(* C04 *)
RefusedIsStutter == (last'.res # "ok") => (s'.sess = s.sess /\ s'.open = s.open /\ s'.now = s.now)
(* C01, C05: reading changes nothing at all *)
ReadingIsStutter == (Is({"check", "get", "keys"}) /\ ok1) => s' = s
(* C02: the boundaries of a session move only by refreshing, and it ends by age exactly at its refresh boundary *)
BoundariesMoveByRefreshOnly ==
  \A x \in Range(s.sess) : \A y \in Range(s'.sess) :
    (x.acc = y.acc /\ ~(Is({"create", "refresh"}) /\ ok1)) => (x.ad = y.ad /\ x.rd = y.rd /\ x.ref = y.ref)
RestartOnRefresh == (Is({"refresh"}) /\ ok1) => \E y \in Range(s'.sess) : y.acc = e1.na /\ y.ad = s.now + AccL /\ y.rd = s.now + RefL
EndOfAge == Is({"tick"}) => Range(s'.sess) = {x \in Range(s.sess) : x.rd > s'.now}
(* C03 *)
RotateOnce ==
  (Is({"refresh"}) /\ ok1) =>
     /\ \E x \in Range(s.sess), y \in Range(s'.sess) :
          x.acc = e1.a /\ x.ref = e1.r /\ y.acc = e1.na /\ y.ref = e1.nr /\ y.id = x.id /\ y.data = x.data
     /\ e1.a # e1.na => e1.a \notin Accs(s')
     /\ (e1.na # e1.a \/ e1.nr # e1.r) => ~ \E y \in Range(s'.sess) : y.acc = e1.a /\ y.ref = e1.r
     /\ Others(s', {e1.na}) = Others(s, {e1.a, e1.na})
     /\ s'.sess[Len(s'.sess)].acc = e1.na
(* C05 *)
PutExact == (Is({"put"}) /\ ok1) =>
  /\ \A i \in DOMAIN s.sess :
       IF s.sess[i].acc # e1.a THEN s'.sess[i] = s.sess[i]
       ELSE LET d == s.sess[i].data
                n == s'.sess[i].data
            IN  /\ DOMAIN n = DOMAIN d \cup KeysOf(e1.kv)
                /\ \A k \in DOMAIN n : IF k \in KeysOf(e1.kv)
                     THEN \E j \in DOMAIN e1.kv : /\ e1.kv[j] = <<k, n[k]>>
                                                  /\ \A q \in (j + 1)..Len(e1.kv) : e1.kv[q][1] # k
                     ELSE n[k] = d[k]
  /\ Len(s'.sess) = Len(s.sess)
DeleteExact == (Is({"delete"}) /\ ok1) =>
  /\ \A i \in DOMAIN s.sess :
       IF s.sess[i].acc # e1.a THEN s'.sess[i] = s.sess[i]
       ELSE /\ DOMAIN s'.sess[i].data = DOMAIN s.sess[i].data \ Range(e1.ks)
            /\ \A k \in DOMAIN s'.sess[i].data : s'.sess[i].data[k] = s.sess[i].data[k]
  /\ Len(s'.sess) = Len(s.sess)
GetExact == (Is({"get"}) /\ ok1) =>
  LET d == Sess(s, e1.a).data
  IN  /\ Len(last'.out) = Len(e1.ks)
      /\ \A i \in DOMAIN e1.ks : last'.out[i][1] = (e1.ks[i] \in DOMAIN d) /\ (last'.out[i][1] => last'.out[i][2] = d[e1.ks[i]])
(* C06 *)
DestroyExact == (Is({"destroy"}) /\ ok1) => (s'.sess = SelectSeq(s.sess, LAMBDA x : x.id # e1.id) /\ \A x \in s'.dead : x.id # e1.id)
DestroyTokExact == (Is({"destroytok"}) /\ ok1) => s'.sess = Others(s, {e1.a})
ClearAll == (Is({"clear"}) /\ ok1) => (s'.sess = <<>> /\ s'.dead = {})
(* C07 *)
EvictOldest == (Is({"create"}) /\ ok1) =>
  LET o == Others(s, {e1.a})
  IN  /\ s'.sess[Len(s'.sess)].acc = e1.a
      /\ SubSeq(s'.sess, 1, Len(s'.sess) - 1) = (IF Max > 0 /\ Len(o) = Max THEN Tail(o) ELSE o)
(* A session ends only by the operations that end sessions. *)
EndsOnlyBy == (\E a \in Accs(s) : a \notin Accs(s')) => (Is({"tick", "create", "refresh", "destroy", "destroytok", "clear"}) /\ ok1)
(* A session comes only from create and refresh: nothing is revived. *)
ComesOnlyBy == (\E a \in Accs(s') : a \notin Accs(s)) => (Is({"create", "refresh"}) /\ ok1)
(* C08 *)
SweepExact == Is({"sweep"}) => (s'.sess = s.sess /\ s'.dead = {})
StumbleReclaims == (Is({"check", "get", "keys", "put", "delete", "refresh"}) /\ last'.res = "notexists" /\ s.open)
                     => \A x \in s'.dead : x.acc # e1.a
DeadOnlyByAge == s'.dead \subseteq s.dead \/ Is({"tick"})
(* C09 *)
CloseIsFinal == /\ (~s.open) => (~s'.open /\ (Is({"tick", "sweep"}) \/ last'.res \in {"closed", "invalid", "idmis", "err"}))
                /\ (s.open /\ ~s'.open) => (Is({"close"}) /\ ok1 /\ s'.sess = s.sess)

Steps == [][/\ RefusedIsStutter /\ ReadingIsStutter /\ BoundariesMoveByRefreshOnly /\ RestartOnRefresh /\ EndOfAge
            /\ RotateOnce /\ PutExact /\ DeleteExact /\ GetExact /\ DestroyExact /\ DestroyTokExact /\ ClearAll
            /\ EvictOldest /\ EndsOnlyBy /\ ComesOnlyBy /\ SweepExact /\ StumbleReclaims /\ DeadOnlyByAge /\ CloseIsFinal]_vars
=============================================================================
