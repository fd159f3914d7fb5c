------------------------------ MODULE ConcTrace ------------------------------
(* Judges recorded concurrent (and faulty, and crashing) executions of real    *)
(* providers: is there an order of the operations, respecting real time, in    *)
(* which Store explains every result?  The judge carries the set of all        *)
(* configurations (store contents, operations still to take effect) that       *)
(* explain the trace so far; the trace is wrong when the set becomes empty.     *)
(*                                                                              *)
(* Events besides those of SeqTrace:                                            *)
(*   inv  {q, e}  operation number q is called; e is the operation together     *)
(*                with the result it is going to have (res = "none": it never   *)
(*                returns); e.flt = TRUE: a fault was injected into it          *)
(*   ret  {q}     operation q returns                                           *)
(*   crash        the process dies: pending operations have happened or never   *)
(*                will; all providers are closed                                *)
EXTENDS TraceBase

VARIABLES tid, i, cs, inv, nows, cfgs
vars == <<tid, i, cs, inv, nows, cfgs>>

(* A configuration: ss store id -> store, closed provider -> BOOLEAN,           *)
(* gone store id -> sessions whose time ran out while operations were pending;   *)
(* todo = operations called that have not taken effect yet.                     *)
(* inv: operation -> [e, at (index into nows), live]; nows: the times so far.    *)

----------------------------------------------------------------------------
(* Taking effect *)

(* The store as the operation sees it when it read the clock at time t.          *)
At(s, t) == IF t = s.now THEN s ELSE [s EXCEPT !.now = t]
Back(s, n) == IF s.now = n THEN s ELSE Tick(s, n)

Flt(e) == "flt" \in DOMAIN e /\ e.flt

(* The command of an operation cut off by Close may have left: it takes effect    *)
(* later, or never.                                                               *)
Left(c, e) == c.kind = "redis" /\ e.res = "closed" /\ e.op # "close"

(* A refresh on redis goes by the time it read the session, and commits if the     *)
(* key has not been touched since: it may find a session whose time has run out    *)
(* meanwhile.  Nobody has refreshed, destroyed or created it since.                *)
Late(c, tok, k, e, sid, s0, ts) ==
  IF c.kind # "redis" \/ e.op # "refresh" THEN {}
  ELSE UNION {UNION {Outcomes(c, tok, At([s0 EXCEPT !.sess = Append(@, x)], t), e) : t \in {u \in ts : u < x.rd}}
              : x \in {y \in k.gone[sid] : y.acc = e.a /\ y.acc \notin Accs(s0)}}
Touched(e, x) == CASE e.op \in {"create", "destroytok"} -> x.acc = e.a
                   [] e.op = "refresh" -> x.acc \in {e.a, e.na}
                   [] e.op = "destroy" -> x.id = e.id
                   [] e.op = "clear" -> TRUE
                   [] OTHER -> FALSE
Untouched(gone, e, res) == IF res = "ok" THEN {x \in gone : ~Touched(e, x)} ELSE gone

(* Answers that are as true as those to an undisturbed operation. *)
Telling == {"invalid", "notexists", "expired", "idmis", "refmis", "closed"}

(* The ways operation e may take effect in configuration k.                      *)
Effects(c, tok, k, e, ts) ==
  LET sid == StoreOf(tid, e)
      s0 == [k.ss[sid] EXCEPT !.open = ~k.closed[e.p]]
      n == s0.now
      outs == {[o EXCEPT !.st = Back(@, n)] : o \in UNION {Outcomes(c, tok, At(s0, t), e) : t \in ts} \cup Late(c, tok, k, e, sid, s0, ts)}
      normal == {o \in outs : (e.res = "none" \/ o.res = e.res) /\ (e.res = "none" \/ OutMatches(e, o))}
      (* an error answer to a disturbed operation says nothing about its effect, *)
      (* unless it is one that speaks about the session or the provider          *)
      lost == IF (Flt(e) /\ e.res \notin {"ok", "panic", "hang"} \cup Telling) \/ Left(c, e)
              THEN outs \cup {[st |-> s0, res |-> "lost", out |-> None]}
              ELSE {}
      late == IF Left(c, e) /\ k.closed[e.p]
              THEN UNION {{Back(o.st, n) : o \in Outcomes(c, tok, At([s0 EXCEPT !.open = TRUE], t), e)} : t \in ts}
              ELSE {}
  IN  {[k EXCEPT !.ss[sid] = [o.st EXCEPT !.open = TRUE, !.dead = {}], !.closed[e.p] = ~o.st.open, !.gone[sid] = Untouched(@, e, o.res)]
        : o \in normal \cup lost}
      \cup {[k EXCEPT !.ss[sid] = [st EXCEPT !.dead = {}]] : st \in late}

(* Destroying a user id on a redis server ends the sessions one by one.          *)
Partial(c, k, e) ==
  IF c.kind = "redis" /\ e.op = "destroy" /\ (~k.closed[e.p] \/ Left(c, e))
  THEN LET sid == StoreOf(tid, e)
       IN  {[k EXCEPT !.ss[sid] = Dropped(@, x.acc), !.gone[sid] = {y \in @ : y.acc # x.acc}] : x \in {y \in Range(k.ss[sid].sess) : y.id = e.id}}
  ELSE {}

TimesOf(q) == {nows[j] : j \in inv[q].at..Len(nows)}

Steps(c, tok, k) ==
  UNION {LET e == inv[q].e
         IN  {[x EXCEPT !.todo = @ \ {q}] : x \in Effects(cfgs[e.p], tok, k, e, TimesOf(q))} \cup Partial(c, k, e)
         : q \in k.todo}

RECURSIVE Close(_, _, _, _)
Close(c, tok, done, new) ==
  IF new = {} THEN done
  ELSE LET nxt == UNION {Steps(c, tok, k) : k \in new}
       IN  Close(c, tok, done \cup new, nxt \ (done \cup new))

Closure(c, tok) == Close(c, tok, {}, cs)

----------------------------------------------------------------------------
(* Blame *)

(* A fault was injected into an earlier operation, or into this one. *)
Disturbed(t) == \E j \in 1..i : j <= Len(T(t).ev) /\ T(t).ev[j].op \in Ops /\ Flt(T(t).ev[j])

Kinds(t) == {T(t).ev[j].e.op : j \in {n \in 1..(i - 1) : T(t).ev[n].op = "inv"}}
ConcBlame(t, c) ==
  IF Kinds(t) = {} THEN {}
  ELSE Range(T(t).cfg.tags)
       \cup (IF "refresh" \in Kinds(t) THEN {"C03"} ELSE {})
       \cup (IF Kinds(t) \cap {"destroy", "destroytok", "clear"} # {} THEN {"C06"} ELSE {})
       \cup (IF "close" \in Kinds(t) THEN {"C09"} ELSE {})
       \cup (IF Kinds(t) \cap {"put", "delete", "get", "keys"} # {} THEN {"C05"} ELSE {})
       \cup (IF "create" \in Kinds(t) /\ c.max > 0 THEN {"C07"} ELSE {})
       \cup (IF \E j \in 1..(i - 1) : T(t).ev[j].op = "tick" THEN {"C08"} ELSE {})
       \cup {"C01"}

Blame(e, c, R) == (IF Disturbed(tid) THEN Range(T(tid).cfg.tags) ELSE {}) \cup Speaks(e) \cup ResWrong(e, R) \cup ConcBlame(tid, c)
                  \cup UNION {Marks(c, T(tid).ev[j]) : j \in {n \in 1..(i - 1) : T(tid).ev[n].op \in Ops \cup {"reopen"}}}
                  \cup (IF \E k \in cs : k.closed[e.p] THEN {"C09"} ELSE {})

Expect(c, tok, e) == UNION {{o.res : o \in Outcomes(cfgs[e.p], tok, [k.ss[StoreOf(tid, e)] EXCEPT !.open = ~k.closed[e.p]], e)} : k \in cs}

Abandon == /\ i' = Len(T(tid).ev) + 1 /\ cs' = {} /\ UNCHANGED <<tid, inv, nows, cfgs>>

----------------------------------------------------------------------------
InvEvent(ev) ==
  /\ inv' = (ev.q :> [e |-> ev.e, at |-> Len(nows), live |-> TRUE]) @@ inv
  /\ cs' = {[k EXCEPT !.todo = @ \cup {ev.q}] : k \in cs}
  /\ i' = i + 1
  /\ UNCHANGED <<tid, nows, cfgs>>

ClosedAnswer(c, e, k) == (c.kind = "redis" /\ e.res = "closed") => k.closed[e.p]

RetEvent(ev, c, tok) ==
  LET e == inv[ev.q].e
      X == {k \in Closure(c, tok) : (ev.q \notin k.todo \/ Left(c, e)) /\ ClosedAnswer(c, e, k)}
  IN  IF X = {} \/ e.res \in {"panic", "hang"}
      THEN LET R == Expect(c, tok, e)
           IN  /\ Say(tid, i, e, Blame(e, c, R), R)
               /\ Abandon
      ELSE /\ cs' = X
           /\ inv' = [inv EXCEPT ![ev.q].live = FALSE]
           /\ i' = i + 1
           /\ UNCHANGED <<tid, nows, cfgs>>

(* A complete operation during which nothing else was called.                     *)
OpEvent(e, c, tok) ==
  LET C == {k \in Closure(c, tok) : ClosedAnswer(c, e, k)}
      X == UNION {Effects(cfgs[e.p], tok, k, e, {nows[Len(nows)]}) : k \in C}
  IN  IF X = {}
      THEN LET R == Expect(c, tok, e)
           IN  /\ Say(tid, i, e, Blame(e, c, R), R)
               /\ Abandon
      ELSE /\ cs' = X
           /\ i' = i + 1
           /\ UNCHANGED <<tid, inv, nows, cfgs>>

TickEvent(e, c, tok) ==
  /\ cs' = {[k EXCEPT !.ss = [q \in DOMAIN @ |-> [Tick(@[q], e.now) EXCEPT !.dead = {}]],
                       !.gone = [q \in DOMAIN @ |-> IF c.kind # "redis" \/ k.todo = {} THEN {}
                                                    ELSE @[q] \cup {x \in Range(k.ss[q].sess) : x.rd <= e.now}]]
            : k \in Closure(c, tok)}
  /\ nows' = Append(nows, e.now)
  /\ i' = i + 1
  /\ UNCHANGED <<tid, inv, cfgs>>

CrashEvent(c, tok) ==
  /\ cs' = {[k EXCEPT !.todo = {}, !.closed = [p \in DOMAIN @ |-> TRUE]] : k \in Closure(c, tok)}
  /\ inv' = [q \in DOMAIN inv |-> [inv[q] EXCEPT !.live = FALSE]]
  /\ i' = i + 1
  /\ UNCHANGED <<tid, nows, cfgs>>

ReopenEvent(e) ==
  IF e.res = "ok"
  THEN /\ cs' = {[k EXCEPT !.closed[e.p] = FALSE] : k \in cs}
       /\ cfgs' = Reopened(tid, cfgs, e)
       /\ i' = i + 1
       /\ UNCHANGED <<tid, inv, nows>>
  ELSE /\ Say(tid, i, e, {"C12"} \cup Range(T(tid).cfg.tags), {"ok"})
       /\ Abandon

SameEvent(e) ==
  IF e.same THEN /\ i' = i + 1 /\ UNCHANGED <<tid, cs, inv, nows, cfgs>>
  ELSE /\ Say(tid, i, e, Range(e.about) \cup Range(T(tid).cfg.tags), {TRUE})
       /\ Abandon

(* Everything is at rest and every dead session has been given back: at most what *)
(* the live sessions need is held.                                                *)
FootEvent(e, c) ==
  LET n == CHOOSE m \in {Len(k.ss[StoreOf(tid, e)].sess) : k \in cs} :
             \A k \in cs : Len(k.ss[StoreOf(tid, e)].sess) <= m
      bound == e.base + e.slack + e.unit * n
  IN  IF e.n <= bound
      THEN /\ i' = i + 1 /\ UNCHANGED <<tid, cs, inv, nows, cfgs>>
      ELSE /\ Say(tid, i, e, {"C08"} \cup Range(T(tid).cfg.tags), {bound})
           /\ Abandon

MarkEvent(e) == /\ i' = i + 1 /\ UNCHANGED <<tid, cs, inv, nows, cfgs>>

Init == /\ tid \in DOMAIN Traces
        /\ i = 1
        /\ cs = {[ss |-> [q \in 1..T(tid).cfg.stores |-> Empty],
                  gone |-> [q \in 1..T(tid).cfg.stores |-> {}],
                  closed |-> [p \in DOMAIN T(tid).cfg.store |-> FALSE],
                  todo |-> {}]}
        /\ cfgs = Cfgs(tid)
        /\ inv = <<>>
        /\ nows = <<0>>

Next == /\ i <= Len(T(tid).ev)
        /\ LET e == T(tid).ev[i]
               c == Cfg(tid)
               tok == Toks(tid)
           IN  CASE e.op \in Ops -> OpEvent(e, c, tok)
                 [] e.op = "inv" -> InvEvent(e)
                 [] e.op = "ret" -> RetEvent(e, c, tok)
                 [] e.op = "tick" -> TickEvent(e, c, tok)
                 [] e.op = "crash" -> CrashEvent(c, tok)
                 [] e.op = "foot" -> FootEvent(e, c)
                 [] e.op = "same" -> SameEvent(e)
                 [] e.op = "reopen" -> ReopenEvent(e)
                 [] e.op = "mark" -> MarkEvent(e)

Spec == Init /\ [][Next]_vars
==============================================================================
