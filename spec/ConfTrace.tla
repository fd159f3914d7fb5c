----------------------------- MODULE ConfTrace -----------------------------
(* Judges recorded executions against Configure.                              *)
EXTENDS Configure, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
T(t) == Traces[t]
VARIABLES tid, i, reg
vars == <<tid, i, reg>>

Go(r) == reg' = r /\ i' = i + 1 /\ UNCHANGED tid
Wrong(e, expect) ==
  /\ PrintT("MISMATCH " \o ToJson([trace |-> T(tid).name, n |-> i, ev |-> e, blame |-> {"C21"}, expect |-> expect]))
  /\ i' = Len(T(tid).ev) + 1 /\ UNCHANGED <<tid, reg>>

(* Everything seen is what the options mean. *)
ConfEvent(e) ==
  LET u == Used(e.kind, e.opts)
      bad == {n \in DOMAIN e.seen : e.seen[n][1] \in DOMAIN u /\ e.seen[n][2] # u[e.seen[n][1]]}
  IN  IF e.res # "ok" THEN Wrong(e, {"ok"})
      ELSE IF bad # {} THEN Wrong(e, {<<e.seen[n][1], u[e.seen[n][1]]>> : n \in bad})
      ELSE Go(reg)

Init == tid \in DOMAIN Traces /\ i = 1 /\ reg = Registry0
Next ==
  /\ i <= Len(T(tid).ev)
  /\ LET e == T(tid).ev[i]
     IN  CASE e.op = "conf" -> ConfEvent(e)
           [] e.op = "lock" ->
                LET R == OpenOutcomes(e.timeouts, e.held, e.took)
                IN  IF e.res \in R THEN Go(reg) ELSE Wrong(e, R)
           [] e.op = "refused" -> IF e.res \in {"ok", "panic", "hang"} \/ ~e.same THEN Wrong(e, {"refused without effect"}) ELSE Go(reg)
           [] e.op = "register" -> Go(Register(reg, e.name, e.m))
           [] e.op = "look" -> IF e.m = LookUp(reg, e.name) THEN Go(reg) ELSE Wrong(e, {LookUp(reg, e.name)})
Spec == Init /\ [][Next]_vars
=============================================================================
