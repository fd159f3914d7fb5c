----------------------------- MODULE CacheTrace -----------------------------
(* Judges recorded executions of session objects over real providers.          *)
(* Events: snew (a new object o on token a), screate (through a manager), the   *)
(* operations of objects (SessionCache!ObjOps, o = the object) and those of the  *)
(* store on the same sessions.  Since a value that did not decode may or may     *)
(* not be kept, every object has a set of caches it may have.                    *)
EXTENDS TraceBase, SessionCache

VARIABLES tid, i, s, obs
vars == <<tid, i, s, obs>>
(* obs: sequence of [tok, caches]                                                *)

D(v, ty) == T(tid).dec[v \o "|" \o ty]

Abandon == /\ i' = Len(T(tid).ev) + 1 /\ UNCHANGED <<tid, s, obs>>
Wrong(e, blame, expect) == Say(tid, i, e, blame, expect) /\ Abandon
Go(s2, obs2) == s' = s2 /\ obs' = obs2 /\ i' = i + 1 /\ UNCHANGED tid

Agrees(e, o) ==
  /\ (o.res = "anyerr" /\ e.res \notin {"ok", "panic", "hang"}) \/ (o.res = "decerr" /\ e.res = "err") \/ o.res = e.res
  /\ o.res = "ok" =>
       CASE e.op = "sget" -> e.out = o.out
         [] e.op = "skeys" -> Range(e.keys) = o.keys /\ Len(e.keys) = Cardinality(o.keys)
         [] OTHER -> TRUE

ObjEvent(c, e) ==
  LET ob == obs[e.o]
      all == UNION {ObjOutcomes(c, Toks(tid), s, [tok |-> ob.tok, cache |-> ca], e, D) : ca \in ob.caches}
      X == {o \in all : Agrees(e, o)}
  IN  IF X = {} THEN Wrong(e, {"C17"} \cup (IF e.res = "panic" THEN {"C18"} ELSE {}), {<<o.res, o.out, o.keys>> : o \in all})
      ELSE LET st == (CHOOSE o \in X : TRUE).st
           IN  Go(st, [obs EXCEPT ![e.o].caches = {o.cache : o \in X}])

NewEvent(e) == Go(s, Append(obs, [tok |-> e.a, caches |-> {<<>>}]))

(* A session created by a manager; its object starts with nothing cached.       *)
CreateEvent(c, e) ==
  IF e.bad
  THEN IF e.res \in {"ok", "panic", "hang"} THEN Wrong(e, {"C17", "C04"}, {"refused"}) ELSE Go(s, obs)
  ELSE LET ev == [op |-> "create", p |-> e.p, a |-> e.a, r |-> e.r, kv |-> e.kv, res |-> e.res]
           tk == ("" :> [id |-> "", ok |-> TRUE]) @@ Toks(tid)
           X == Explained(c, tk, s, ev)
       IN  IF X = {} THEN Wrong(e, {"C17", "C01", "C05"}, {o.res : o \in Outcomes(c, tk, s, ev)})
           ELSE Go((CHOOSE o \in X : TRUE).st, IF e.res = "ok" THEN Append(obs, [tok |-> e.a, caches |-> {<<>>}]) ELSE obs)

StoreEvent(c, e) ==
  LET X == Explained(c, Toks(tid), s, e)
      \* what an object was refused before must not have left anything behind
      refused == \E j \in 1..(i - 1) : T(tid).ev[j].op \in {"sput", "screate", "sdelete"} /\ T(tid).ev[j].res # "ok"
  IN  IF X = {} THEN Wrong(e, {"C17"} \cup Speaks(e) \cup (IF refused THEN {"C04"} ELSE {}) \cup ResWrong(e, {}), {o.res : o \in Outcomes(c, Toks(tid), s, e)})
      ELSE Go((CHOOSE x \in X : TRUE).st, obs)

SameEvent(e) ==
  IF e.same THEN Go(s, obs) ELSE Say(tid, i, e, Range(e.about), {TRUE}) /\ Abandon

Init == /\ tid \in DOMAIN Traces
        /\ i = 1 /\ s = Empty /\ obs = <<>>

Next == /\ i <= Len(T(tid).ev)
        /\ LET e == T(tid).ev[i]
               c == Cfg(tid)
           IN  CASE e.op \in ObjOps -> ObjEvent(c, e)
                 [] e.op = "snew" -> NewEvent(e)
                 [] e.op = "screate" -> CreateEvent(c, e)
                 [] e.op \in Ops -> StoreEvent(c, e)
                 [] e.op = "tick" -> Go([Tick(s, e.now) EXCEPT !.dead = {}], obs)
                 [] e.op = "same" -> SameEvent(e)
                 [] e.op = "mark" -> Go(s, obs)

Spec == Init /\ [][Next]_vars
=============================================================================
