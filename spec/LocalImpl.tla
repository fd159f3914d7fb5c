----------------------------- MODULE LocalImpl -----------------------------
(* How the memory and bolt providers work: three structures (the map of tokens, *)
(* the tokens of each id, the order of eviction - and bolt's counter) changed    *)
(* under one read/write lock; readers report dead sessions through a bounded     *)
(* queue to a worker that looks again under the lock; a sweeper; Close.          *)
(* Checked: the three structures always agree; every critical section is an     *)
(* operation of Store on the abstract sessions; nothing blocks for ever, in any   *)
(* interleaving, and after Close every worker ends.                              *)
EXTENDS Store

CONSTANTS Kind, Max, AccL, RefL, Batch, Clients, NOps, Horizon, HasClose, WithSweep, Broken

VARIABLES
  now,
  tab,       \* token -> session record (the map; bolt: bucket metadata + data)
  ids,       \* id -> sequence of tokens
  lru,       \* sequence of tokens, oldest first
  count,     \* bolt's counter (mem: the length of the list)
  done, closed,   \* the flag under the lock, the closed channel
  lockw, lockr,   \* writer (or "none"), set of readers
  pc, cur, res, left,   \* of every client
  ch,        \* the queue
  wpc, wset, spc       \* worker and sweeper
vars == <<now, tab, ids, lru, count, done, closed, lockw, lockr, pc, cur, res, left, ch, wpc, wset, spc>>

Tok == [a1 |-> [id |-> "u", ok |-> TRUE], a2 |-> [id |-> "u", ok |-> TRUE], r1 |-> [id |-> "u", ok |-> TRUE],
        b1 |-> [id |-> "v", ok |-> TRUE], s1 |-> [id |-> "v", ok |-> TRUE]]
C == [kind |-> Kind, max |-> Max, accL |-> AccL, refL |-> RefL, rejk |-> {}, mayk |-> {}, mayid |-> {}]

OpsOf ==
  {[op |-> "create", a |-> "a1", r |-> "r1", kv |-> <<>>], [op |-> "create", a |-> "a2", r |-> "r1", kv |-> <<>>],
   [op |-> "create", a |-> "b1", r |-> "s1", kv |-> <<>>],
   [op |-> "refresh", a |-> "a1", r |-> "r1", na |-> "a2", nr |-> "r1"],
   [op |-> "refresh", a |-> "a1", r |-> "r1", na |-> "a1", nr |-> "r1"],
   [op |-> "check", a |-> "a1"], [op |-> "check", a |-> "a2"],
   [op |-> "put", a |-> "a1", kv |-> <<<<"k", "1">>>>],
   [op |-> "destroy", id |-> "u"], [op |-> "destroytok", a |-> "a1"]}
  \cup (IF HasClose THEN {[op |-> "close"]} ELSE {})
Reads(e) == e.op \in {"check", "get", "keys"}

----------------------------------------------------------------------------
(* The structures, changed the way the code changes them. r = [tab, ids, lru, count]. *)
Rep == [tab |-> tab, ids |-> ids, lru |-> lru, count |-> count]
Size(r) == IF Kind = "bolt" THEN r.count ELSE Len(r.lru)

RemoveFirst(q, t) == IF \E i \in DOMAIN q : q[i] = t
                     THEN LET i == CHOOSE j \in DOMAIN q : q[j] = t /\ \A n \in 1..(j - 1) : q[n] # t
                          IN  SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
                     ELSE q
DropKey(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Pop(r, t) ==
  LET id == r.tab[t].id
      q == IF id \in DOMAIN r.ids THEN RemoveFirst(r.ids[id], t) ELSE <<>>
  IN  [tab |-> DropKey(r.tab, t),
       ids |-> IF q = <<>> THEN DropKey(r.ids, id) ELSE [r.ids EXCEPT ![id] = q],
       lru |-> RemoveFirst(r.lru, t),
       count |-> r.count - 1]
PopIf(r, t) == IF t \in DOMAIN r.tab THEN Pop(r, t) ELSE r
Add(r, t, x) ==
  [tab |-> (t :> x) @@ r.tab,
   ids |-> (x.id :> Append(IF x.id \in DOMAIN r.ids THEN r.ids[x.id] ELSE <<>>, t)) @@ r.ids,
   lru |-> Append(r.lru, t),
   count |-> r.count + 1]
RECURSIVE PopAll(_, _)
PopAll(r, q) == IF q = <<>> THEN r ELSE PopAll(PopIf(r, q[1]), Tail(q))
RECURSIVE SweepRep(_)
SweepRep(r) == IF r.lru # <<>> /\ r.tab[r.lru[1]].rd <= now THEN SweepRep(Pop(r, r.lru[1])) ELSE r

R(r, x, rep) == [r |-> r, x |-> x, rep |-> rep]       \* result, report a dead session?, new structures
Run(e) ==
  LET r == Rep
      have(t) == t \in DOMAIN r.tab
      deleted(t) == r.tab[t].rd <= now
      expired(t) == r.tab[t].ad <= now
  IN
  IF done THEN R("closed", FALSE, r)
  ELSE CASE e.op = "create" ->
         LET r1 == IF Broken = "noreplace" THEN r ELSE PopIf(r, e.a)
             r2 == IF Max > 0 /\ Size(r1) >= Max THEN Pop(r1, r1.lru[1]) ELSE r1
         IN  R("ok", FALSE, Add(r2, e.a, [ref |-> e.r, id |-> Tok[e.a].id, ad |-> now + AccL, rd |-> now + RefL, data |-> ApplyKV(<<>>, e.kv)]))
    [] e.op = "refresh" ->
         IF ~have(e.a) THEN R("notexists", FALSE, r)
         ELSE IF deleted(e.a) THEN R("notexists", FALSE, Pop(r, e.a))
         ELSE IF r.tab[e.a].ref # e.r THEN R("refmis", FALSE, r)
         ELSE LET x == r.tab[e.a]
                  r1 == PopIf(Pop(r, e.a), e.na)
              IN  R("ok", FALSE, Add(r1, e.na, [x EXCEPT !.ref = e.nr, !.ad = now + AccL, !.rd = now + RefL]))
    [] e.op = "check" ->
         IF ~have(e.a) THEN R("notexists", FALSE, r)
         ELSE IF deleted(e.a) THEN R("notexists", TRUE, r)
         ELSE IF expired(e.a) THEN R("expired", FALSE, r) ELSE R("ok", FALSE, r)
    [] e.op = "put" ->
         IF ~have(e.a) THEN R("notexists", FALSE, r)
         ELSE IF deleted(e.a) THEN R("notexists", FALSE, Pop(r, e.a))
         ELSE IF expired(e.a) THEN R("expired", FALSE, r)
         ELSE R("ok", FALSE, [r EXCEPT !.tab[e.a].data = ApplyKV(@, e.kv)])
    [] e.op = "destroy" -> R("ok", FALSE, IF e.id \in DOMAIN r.ids THEN PopAll(r, r.ids[e.id]) ELSE r)
    [] e.op = "destroytok" -> R("ok", FALSE, PopIf(r, e.a))
    [] e.op = "close" -> R("ok", FALSE, r)

Take(rep) == tab' = rep.tab /\ ids' = rep.ids /\ lru' = rep.lru /\ count' = rep.count
KeepRep == UNCHANGED <<tab, ids, lru, count>>

----------------------------------------------------------------------------
Call(c) ==
  /\ pc[c] = "idle" /\ left[c] > 0
  /\ \E e \in OpsOf : cur' = [cur EXCEPT ![c] = e]
  /\ pc' = [pc EXCEPT ![c] = "want"]
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED <<now, done, closed, lockw, lockr, res, ch, wpc, wset, spc>> /\ KeepRep
Acquire(c) ==
  /\ pc[c] = "want"
  /\ IF Reads(cur[c]) THEN lockw = "none" /\ lockr' = lockr \cup {c} /\ UNCHANGED lockw
     ELSE lockw = "none" /\ lockr = {} /\ lockw' = c /\ UNCHANGED lockr
  /\ pc' = [pc EXCEPT ![c] = "in"]
  /\ UNCHANGED <<now, done, closed, cur, res, left, ch, wpc, wset, spc>> /\ KeepRep
Critical(c) ==
  /\ pc[c] = "in"
  /\ LET x == Run(cur[c])
     IN  /\ Take(x.rep)
         /\ res' = [res EXCEPT ![c] = x.r]
         /\ IF cur[c].op = "close" /\ x.r = "ok" THEN done' = TRUE /\ closed' = TRUE ELSE UNCHANGED <<done, closed>>
         /\ pc' = [pc EXCEPT ![c] = IF x.x THEN "report" ELSE "idle"]
  /\ lockw' = IF lockw = c THEN "none" ELSE lockw
  /\ lockr' = IF Broken = "underlock" /\ pc'[c] = "report" THEN lockr ELSE lockr \ {c}
  /\ UNCHANGED <<now, cur, left, ch, wpc, wset, spc>>
(* select { case <-closed: case ch <- token: } *)
Report(c) ==
  /\ pc[c] = "report"
  /\ \/ closed /\ Broken # "deaf" /\ UNCHANGED <<ch, wpc, wset>>
     \/ Batch > 0 /\ Len(ch) < Batch /\ ch' = Append(ch, cur[c].a) /\ UNCHANGED <<wpc, wset>>
     \/ Batch = 0 /\ wpc = "read" /\ wset' = {cur[c].a} /\ wpc' = "want" /\ UNCHANGED ch     \* hand over
  /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ lockr' = lockr \ {c}
  /\ UNCHANGED <<now, done, closed, lockw, cur, res, left, spc>> /\ KeepRep

WorkerRead ==
  /\ wpc = "read"
  /\ \/ closed /\ wpc' = "end" /\ UNCHANGED <<ch, wset>>
     \/ ch # <<>> /\ wset' = {ch[1]} /\ ch' = Tail(ch) /\ wpc' = "more"
  /\ UNCHANGED <<now, done, closed, lockw, lockr, pc, cur, res, left, spc>> /\ KeepRep
(* merge what else waits, without blocking *)
WorkerMore ==
  /\ wpc = "more"
  /\ IF Cardinality(wset) >= Batch THEN wpc' = "want" /\ UNCHANGED <<ch, wset>>
     ELSE \/ closed /\ wpc' = "end" /\ UNCHANGED <<ch, wset>>
          \/ ch # <<>> /\ wset' = wset \cup {ch[1]} /\ ch' = Tail(ch) /\ UNCHANGED wpc
          \/ ch = <<>> /\ ~closed /\ wpc' = "want" /\ UNCHANGED <<ch, wset>>
  /\ UNCHANGED <<now, done, closed, lockw, lockr, pc, cur, res, left, spc>> /\ KeepRep
WorkerLock ==
  /\ wpc = "want" /\ lockw = "none" /\ lockr = {}
  /\ lockw' = "worker" /\ wpc' = "in"
  /\ UNCHANGED <<now, done, closed, lockr, pc, cur, res, left, ch, wset, spc>> /\ KeepRep
RECURSIVE PopDead(_, _)
PopDead(r, S) == IF S = {} THEN r
                 ELSE LET t == CHOOSE x \in S : TRUE
                      IN  PopDead(IF t \in DOMAIN r.tab /\ (r.tab[t].rd <= now \/ Broken = "norecheck") THEN Pop(r, t) ELSE r, S \ {t})
WorkerIn ==
  /\ wpc = "in"
  /\ IF done THEN KeepRep /\ wpc' = "end" ELSE Take(PopDead(Rep, wset)) /\ wpc' = "read"
  /\ wset' = {} /\ lockw' = "none"
  /\ UNCHANGED <<now, done, closed, lockr, pc, cur, res, left, ch, spc>>
SweepEnd ==
  /\ spc = "wait" /\ closed /\ spc' = "end" /\ KeepRep
  /\ UNCHANGED <<now, done, closed, lockw, lockr, pc, cur, res, left, ch, wpc, wset>>
Sweeper ==
  /\ WithSweep
  /\ \/ spc = "wait" /\ lockw = "none" /\ lockr = {} /\ tab # <<>> /\ spc' = "in" /\ lockw' = "sweeper" /\ KeepRep
     \/ spc = "in" /\ spc' = "wait" /\ lockw' = "none" /\ (IF done THEN KeepRep ELSE Take(SweepRep(Rep)))
  /\ UNCHANGED <<now, done, closed, lockr, pc, cur, res, left, ch, wpc, wset>>
Time ==
  /\ now < Horizon /\ now' = now + 1
  /\ UNCHANGED <<done, closed, lockw, lockr, pc, cur, res, left, ch, wpc, wset, spc>> /\ KeepRep

Init ==
  /\ now = 0 /\ tab = <<>> /\ ids = <<>> /\ lru = <<>> /\ count = 0
  /\ done = FALSE /\ closed = FALSE /\ lockw = "none" /\ lockr = {}
  /\ pc = [c \in Clients |-> "idle"] /\ cur = [c \in Clients |-> [op |-> "none"]] /\ res = [c \in Clients |-> "none"]
  /\ left = [c \in Clients |-> NOps] /\ ch = <<>> /\ wpc = "read" /\ wset = {} /\ spc = IF WithSweep THEN "wait" ELSE "end"

Client(c) == Acquire(c) \/ Critical(c) \/ Report(c)
Worker == WorkerRead \/ WorkerMore \/ WorkerLock \/ WorkerIn
Next == Time \/ SweepEnd \/ Sweeper \/ Worker \/ \E c \in Clients : Call(c) \/ Client(c)
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Worker) /\ SF_vars(WorkerLock) /\ WF_vars(Sweeper) /\ SF_vars(SweepEnd)   \* a select takes each of its ready branches sooner or later
        /\ \A c \in Clients : WF_vars(Client(c)) /\ SF_vars(Acquire(c))

----------------------------------------------------------------------------
(* The structures agree *)
Consistent ==
  /\ Range(lru) = DOMAIN tab /\ Len(lru) = Cardinality(DOMAIN tab)
  /\ \A t \in DOMAIN tab : tab[t].id \in DOMAIN ids /\ Cardinality({i \in DOMAIN ids[tab[t].id] : ids[tab[t].id][i] = t}) = 1
  /\ \A i \in DOMAIN ids : ids[i] # <<>> /\ \A j \in DOMAIN ids[i] : ids[i][j] \in DOMAIN tab /\ tab[ids[i][j]].id = i
  /\ count = Len(lru)
  /\ \A i, j \in DOMAIN lru : i < j => tab[lru[i]].rd <= tab[lru[j]].rd     \* the sweeper may stop at the first live one
Bound == Max > 0 => Len(lru) <= Max
Locked == (lockw # "none" => lockr = {}) /\ (\A c \in Clients : pc[c] = "in" => (lockw = c \/ c \in lockr))

(* The abstract sessions *)
Session(t) == [acc |-> t, ref |-> tab[t].ref, id |-> tab[t].id, ad |-> tab[t].ad, rd |-> tab[t].rd, data |-> tab[t].data]
Abs == [now |-> now, open |-> ~done,
        sess |-> LET q == SelectSeq(lru, LAMBDA t : tab[t].rd > now) IN [i \in DOMAIN q |-> Session(q[i])],
        dead |-> {[acc |-> t, id |-> tab[t].id, rd |-> tab[t].rd] : t \in {x \in DOMAIN tab : tab[x].rd <= now}}]

(* Eviction of a session that is dead but still held is not an effect on sessions. *)
Same(x, y) == x.sess = y.sess /\ x.open = y.open
(* What is dead and held may be given back at any time, and takes a slot until then. *)
DeadHeldEvict(e) == e.op = "create" /\ Max > 0 /\ \E t \in DOMAIN tab : tab[t].rd <= now
Refines ==
  \A c \in Clients :
    IF pc[c] = "in" /\ pc'[c] # "in"
    THEN \E o \in Outcomes(C, Tok, Abs, cur[c]) : o.res = res'[c] /\ Same(o.st, Abs')
    ELSE TRUE
NoOneElse == (\A c \in Clients : ~(pc[c] = "in" /\ pc'[c] # "in")) => (now' = now => Same(Abs, Abs'))
Refinement == [][Refines /\ NoOneElse]_vars

(* Nothing blocks for ever *)
Returns == \A c \in Clients : (pc[c] \in {"want", "in", "report"}) ~> (pc[c] = "idle")
Ends == closed ~> (wpc = "end" /\ spc = "end")
=============================================================================
