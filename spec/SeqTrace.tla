------------------------------ MODULE SeqTrace ------------------------------
(* Judges recorded sequential executions of real providers: every trace is   *)
(* followed through Store!Outcomes; the first event no outcome explains is   *)
(* printed with the properties it breaks, and the rest of that trace is      *)
(* abandoned.  One initial state per trace.                                  *)
EXTENDS TraceBase

VARIABLES tid, i, ss, closed, cfgs
vars == <<tid, i, ss, closed, cfgs>>

(* An event that shows the session of token a to be as the specification says. *)
Shows(e, a) == \/ e.op = "get" /\ e.a = a
               \/ e.op \in {"check", "keys", "put", "delete", "refresh"} /\ e.a = a /\ e.res \notin {"ok", "err"}

(* Everything that happened since the session of token a was last seen to be as it should. *)
Since(t, c, n, a) ==
  LET ev == T(t).ev
      seen == {j \in 1..(n - 1) : Shows(ev[j], a)}
      lo == IF seen = {} THEN 0 ELSE CHOOSE j \in seen : \A q \in seen : q <= j
  IN  UNION {Marks(c, ev[j]) : j \in (lo + 1)..(n - 1)}

(* Deadlines and the eviction order do not show in what an operation answers until   *)
(* time passes or a session is evicted: when they turn out wrong, anything that ever *)
(* happened in the trace may be the cause.                                           *)
Deep(t, c, n, a) ==
  LET ev == T(t).ev
      some(P(_)) == \E j \in 1..(n - 1) : P(ev[j])
      refused(e) == e.op \in Ops /\ e.res # "ok"
      evicts(e) == e.op = "create" /\ c.max > 0
      ages(e) == e.op = "tick"
  IN  IF ~(some(evicts) \/ some(ages)) THEN {}
      ELSE (IF some(refused) THEN {"C04"} ELSE {})
           \cup (IF some(LAMBDA e : e.op = "reopen") THEN {"C12"} ELSE {})
           \cup (IF some(evicts) /\ ~some(ages) THEN {"C07"} ELSE {})

----------------------------------------------------------------------------
Abandon == /\ i' = Len(T(tid).ev) + 1 /\ UNCHANGED <<tid, ss, closed, cfgs>>

Watch(t, e) == IF e.op \in {"check", "put", "get", "keys", "delete", "refresh"} THEN {e.a} ELSE {}

OpEvent(e, c) ==
  LET sid == StoreOf(tid, e)
      s == [ss[sid] EXCEPT !.open = ~closed[e.p]]
      tok == Toks(tid)
      X == Explained(c, tok, s, e)
  IN  IF X = {}
      THEN LET R == {o.res : o \in Outcomes(c, tok, s, e)}
               w == Watch(tid, e)
               b == Range(T(tid).cfg.tags) \cup Speaks(e) \cup ResWrong(e, R)
                    \cup (IF closed[e.p] THEN {"C09"} ELSE {})
                    \cup UNION {Since(tid, c, i, a) : a \in w}
                    \cup (IF R \cup {e.res} \subseteq {"ok", "expired", "notexists"} /\ Cardinality(R \cup {e.res}) > 1
                          THEN UNION {Deep(tid, c, i, a) : a \in w} ELSE {})
           IN  /\ Say(tid, i, e, b, R)
               /\ Abandon
      ELSE LET o == CHOOSE x \in X : TRUE
           IN  /\ ss' = [ss EXCEPT ![sid] = [o.st EXCEPT !.open = TRUE]]
               /\ closed' = [closed EXCEPT ![e.p] = ~o.st.open]
               /\ i' = i + 1
               /\ UNCHANGED <<tid, cfgs>>

(* A redis server may hold an expired key for this long.                      *)
ServerSlack == T(tid).cfg.sec

(* Time passes; the periodic sweep runs at multiples of its period. *)
TickEvent(e) ==
  LET last(c) == IF c.clear > 0 THEN e.from + ((e.now - e.from) \div c.clear) * c.clear ELSE 0
      adv(c, s) == LET x == Tick(s, e.now)
                   IN  IF c.clear > 0 /\ last(c) > s.now THEN Swept(x, last(c)) ELSE x
      conf(q) == cfgs[CHOOSE p \in DOMAIN cfgs : T(tid).cfg.store[p] = q]
  IN  /\ ss' = [q \in DOMAIN ss |-> IF conf(q).kind = "redis" THEN [Tick(ss[q], e.now) EXCEPT !.dead = {x \in @ : x.rd + ServerSlack > e.now}]
                                      ELSE adv(conf(q), ss[q])]
      /\ i' = i + 1
      /\ UNCHANGED <<tid, closed, cfgs>>

(* The amount of storage in use: base is what a new provider holds, unit what *)
(* one session adds.                                                          *)
FootEvent(e, c) ==
  LET s == ss[StoreOf(tid, e)]
      held == Len(s.sess) + Cardinality(s.dead)
      bound == e.base + e.slack + e.unit * held
      (* without a sweep nothing gives back what has merely grown old *)
      least == IF c = Cfg(tid) /\ c.clear = 0 /\ c.max = 0 /\ c.kind # "redis" THEN held ELSE 0
  IN  IF e.n <= bound /\ (e.held => e.n >= least)
      THEN /\ i' = i + 1 /\ UNCHANGED <<tid, ss, closed, cfgs>>
      ELSE /\ Say(tid, i, e, (IF e.n > bound THEN {"C08"} ELSE {"C19"}) \cup Range(T(tid).cfg.tags), {least, bound})
           /\ Abandon

(* A comparison made by the harness that must have come out TRUE. *)
SameEvent(e) ==
  IF e.same THEN /\ i' = i + 1 /\ UNCHANGED <<tid, ss, closed, cfgs>>
  ELSE /\ Say(tid, i, e, Range(e.about) \cup Range(T(tid).cfg.tags), {TRUE})
       /\ Abandon

(* The provider was closed and opened again on the same storage. *)
ReopenEvent(e) ==
  IF e.res = "ok"
  THEN /\ closed' = [closed EXCEPT ![e.p] = FALSE]
       /\ i' = i + 1
       /\ cfgs' = Reopened(tid, cfgs, e)
       /\ UNCHANGED <<tid, ss>>
  ELSE /\ Say(tid, i, e, {"C12"}, {"ok"})
       /\ Abandon

(* Marks for what the harness did around the operations (scribbling etc.). *)
MarkEvent(e) ==
  /\ i' = i + 1
  /\ UNCHANGED <<tid, ss, closed, cfgs>>

Init == /\ tid \in DOMAIN Traces
        /\ i = 1
        /\ ss = [q \in 1..T(tid).cfg.stores |-> Empty]
        /\ closed = [p \in DOMAIN T(tid).cfg.store |-> FALSE]
        /\ cfgs = Cfgs(tid)

Next == /\ i <= Len(T(tid).ev)
        /\ LET e == T(tid).ev[i]
           IN  CASE e.op \in Ops -> OpEvent(e, cfgs[e.p])
                 [] e.op = "tick" -> TickEvent(e)
                 [] e.op = "foot" -> FootEvent(e, cfgs[e.p])
                 [] e.op = "same" -> SameEvent(e)
                 [] e.op = "reopen" -> ReopenEvent(e)
                 [] e.op = "mark" -> MarkEvent(e)

Spec == Init /\ [][Next]_vars
=============================================================================
