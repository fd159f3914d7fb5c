------------------------------- MODULE Store -------------------------------
(* The abstract session store: what one memory, bolt or redis provider is.  *)
(* Everything is written as pure operators over a store value, so that the  *)
(* exhaustive models (StoreMC, MemoryImpl, RedisImpl, BoltCrash), the       *)
(* generators and the judges of recorded traces (SeqTrace, ConcTrace) share *)
(* one definition of what every operation must do.                          *)
(*                                                                          *)
(* A configuration c is a record                                            *)
(*   kind   "mem" | "bolt" | "redis"                                        *)
(*   max    maximum number of sessions, 0 = unlimited                       *)
(*   accL   access lifetime, refL refresh lifetime (time units: ms)         *)
(*   rejk   set of data keys the store must refuse (its own bookkeeping)    *)
(*   mayk   set of data keys the store may refuse                           *)
(*   mayid  set of user ids the store may refuse                            *)
(* A store s is a record                                                    *)
(*   now    current time                                                    *)
(*   open   FALSE after Close                                               *)
(*   sess   sequence of the live sessions, least recently created or        *)
(*          refreshed first                                                 *)
(*   dead   sessions past their refresh lifetime whose storage may still    *)
(*          be held (set of [acc, id, rd])                                  *)
(* A session is [acc, ref, id, ad, rd, data].                               *)
(* tok maps each token symbol to [id, ok]; ok = FALSE: not a token at all.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Empty == [now |-> 0, open |-> TRUE, sess |-> <<>>, dead |-> {}]

----------------------------------------------------------------------------
(* Looking sessions up *)

Accs(s) == {s.sess[i].acc : i \in DOMAIN s.sess}
IndexOf(s, a) == CHOOSE i \in DOMAIN s.sess : s.sess[i].acc = a
Sess(s, a) == s.sess[IndexOf(s, a)]

(* The status of a well-formed token: the one answer all operations agree on. *)
Status(s, a) == IF a \notin Accs(s) THEN "notexists"
                ELSE IF Sess(s, a).ad <= s.now THEN "expired" ELSE "ok"

WithoutTok(q, a) == SelectSeq(q, LAMBDA x : x.acc # a)
WithoutId(q, id) == SelectSeq(q, LAMBDA x : x.id # id)

RECURSIVE ApplyKV(_, _)
ApplyKV(d, kv) == IF kv = <<>> THEN d
                  ELSE ApplyKV((kv[1][1] :> kv[1][2]) @@ d, Tail(kv))
KeysOf(kv) == {kv[i][1] : i \in DOMAIN kv}

----------------------------------------------------------------------------
(* State transformers *)

(* Time passes to t: sessions reach the end of their refresh lifetime.        *)
Tick(s, t) ==
  [s EXCEPT !.now = t,
            !.sess = SelectSeq(s.sess, LAMBDA x : x.rd > t),
            !.dead = @ \cup {[acc |-> x.acc, id |-> x.id, rd |-> x.rd] :
                              x \in {y \in Range(s.sess) : y.rd <= t}}]

(* A sweep at time t gives back everything that was past its lifetime at t.   *)
Swept(s, t) == [s EXCEPT !.dead = {x \in @ : x.rd > t}]
Stumble(s, a) == [s EXCEPT !.dead = {x \in @ : x.acc # a}]

(* Push a session as the youngest; an elder sibling on the same token ends.   *)
Push(s, x) == [s EXCEPT !.sess = Append(WithoutTok(@, x.acc), x),
                        !.dead = {y \in @ : y.acc # x.acc}]

(* Make room for one more session.                                            *)
Evict(c, s) == IF c.max > 0 /\ Len(s.sess) >= c.max
               THEN [s EXCEPT !.sess = Tail(@)] ELSE s

Dropped(s, a) == [s EXCEPT !.sess = WithoutTok(@, a), !.dead = {y \in @ : y.acc # a}]

DoCreate(c, s, a, r, id, kv) ==
  LET s1 == Dropped(s, a)
      x  == [acc |-> a, ref |-> r, id |-> id, ad |-> s.now + c.accL,
             rd |-> s.now + c.refL, data |-> ApplyKV(<<>>, kv)]
  IN  Push(Evict(c, s1), x)

DoRefresh(c, s, a, na, nr) ==
  LET x == Sess(s, a)
  IN  Push(Dropped(s, a), [x EXCEPT !.acc = na, !.ref = nr,
                           !.ad = s.now + c.accL, !.rd = s.now + c.refL])

SetData(s, a, d) == [s EXCEPT !.sess[IndexOf(s, a)].data = d]
DoPut(s, a, kv) == SetData(s, a, ApplyKV(Sess(s, a).data, kv))
DoDelete(s, a, ks) ==
  LET d == Sess(s, a).data
      keep == DOMAIN d \ Range(ks)
  IN  SetData(s, a, [k \in keep |-> d[k]])
DoDestroy(s, id) == [s EXCEPT !.sess = WithoutId(@, id), !.dead = {y \in @ : y.id # id}]
DoClear(s) == [s EXCEPT !.sess = <<>>, !.dead = {}]

----------------------------------------------------------------------------
(* Operations.  An event e is a record with field op and the arguments that   *)
(* operation has.  Refusals(c, tok, s, e) is the set of error classes that    *)
(* apply; when several do the store may report any one of them.               *)

TokArgs(e) ==
  CASE e.op = "create" -> {e.a, e.r}
    [] e.op = "refresh" -> {e.a, e.r, e.na, e.nr}
    [] e.op \in {"check", "put", "get", "keys", "delete", "destroytok"} -> {e.a}
    [] OTHER -> {}

NeedsLive(e) == e.op \in {"check", "put", "get", "keys", "delete"}

Refusals(c, tok, s, e) ==
  LET bad == \E t \in TokArgs(e) : ~tok[t].ok
      ids == {tok[t].id : t \in {u \in TokArgs(e) : tok[u].ok}}
  IN  (IF bad THEN {"invalid"} ELSE {})
      \cup (IF ~s.open THEN {"closed"} ELSE {})
      \cup (IF e.op = "refresh" /\ Cardinality(ids) > 1 THEN {"idmis"} ELSE {})
      \cup (IF e.op = "create" /\ c.kind = "redis" /\ Cardinality(ids) > 1 THEN {"idmis"} ELSE {})
      \cup (IF e.op \in {"put", "create"} /\ KeysOf(e.kv) \cap c.rejk # {} THEN {"err"} ELSE {})
      \cup (IF NeedsLive(e) /\ s.open /\ tok[e.a].ok /\ Status(s, e.a) # "ok"
            THEN {Status(s, e.a)} ELSE {})
      \cup (IF e.op = "refresh" /\ s.open /\ tok[e.a].ok
            THEN IF e.a \notin Accs(s) THEN {"notexists"}
                 ELSE IF Sess(s, e.a).ref # e.r THEN {"refmis"} ELSE {}
            ELSE {})

(* An operation that finds a dead session has its storage given back.          *)
Stumbles(s, e, r) ==
  IF (NeedsLive(e) \/ e.op = "refresh") /\ r = "notexists" THEN Stumble(s, e.a) ELSE s

None == "none"

(* What an unrefused operation does and returns. *)
Success(c, tok, s, e) ==
  CASE e.op = "create" ->
         [st |-> DoCreate(c, s, e.a, e.r, tok[e.a].id, e.kv), res |-> "ok", out |-> None]
    [] e.op = "refresh" ->
         [st |-> DoRefresh(c, s, e.a, e.na, e.nr), res |-> "ok", out |-> None]
    [] e.op = "check" -> [st |-> s, res |-> "ok", out |-> None]
    [] e.op = "put" -> [st |-> DoPut(s, e.a, e.kv), res |-> "ok", out |-> None]
    [] e.op = "get" ->
         LET d == Sess(s, e.a).data
         IN  [st |-> s, res |-> "ok",
              out |-> [i \in DOMAIN e.ks |->
                         IF e.ks[i] \in DOMAIN d THEN <<TRUE, d[e.ks[i]]>> ELSE <<FALSE, "">>]]
    [] e.op = "keys" -> [st |-> s, res |-> "ok", out |-> DOMAIN Sess(s, e.a).data]
    [] e.op = "delete" -> [st |-> DoDelete(s, e.a, e.ks), res |-> "ok", out |-> None]
    [] e.op = "destroy" -> [st |-> DoDestroy(s, e.id), res |-> "ok", out |-> None]
    [] e.op = "destroytok" -> [st |-> Dropped(s, e.a), res |-> "ok", out |-> None]
    [] e.op = "clear" -> [st |-> DoClear(s), res |-> "ok", out |-> None]
    [] e.op = "close" -> [st |-> [s EXCEPT !.open = FALSE], res |-> "ok", out |-> None]

(* Refusals that are the store's own choice: the operation may also succeed.  *)
MayRefuse(c, tok, s, e) ==
  (IF e.op = "create" /\ tok[e.a].ok /\ tok[e.r].ok /\ tok[e.a].id # tok[e.r].id
   THEN {"idmis"} ELSE {})
  \cup (IF e.op \in {"put", "create"} /\ KeysOf(e.kv) \cap c.mayk # {} THEN {"err"} ELSE {})
  \cup (IF e.op \in {"get", "delete"} /\ Range(e.ks) \cap (c.rejk \cup c.mayk) # {} THEN {"err"} ELSE {})
  \cup (IF e.op = "create" /\ tok[e.a].ok /\ tok[e.a].id \in c.mayid THEN {"err"} ELSE {})

Outcomes(c, tok, s, e) ==
  LET R == Refusals(c, tok, s, e)
      M == MayRefuse(c, tok, s, e)
      refuse(X) == {[st |-> Stumbles(s, e, r), res |-> r, out |-> None] : r \in X}
  IN  IF R # {} THEN refuse(R \cup M)
      ELSE {Success(c, tok, s, e)} \cup refuse(M)
=============================================================================
