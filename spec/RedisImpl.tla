----------------------------- MODULE RedisImpl -----------------------------
(* How the redis provider works: several clients, each operation a few commands  *)
(* to one server, WATCH/MULTI/EXEC around read-modify-write, a background        *)
(* deletion worker, keys the server drops by itself, connections that break      *)
(* before or after the server has done its part.                                 *)
(* Checked: every command that changes something is one operation of Store on    *)
(* the abstract sessions, of the operation it belongs to, with the result the     *)
(* client will report - at a time between call and return; nothing else changes   *)
(* anything; no result is reported that was not true at such an instant.          *)
EXTENDS Store

CONSTANTS AccL, RefL, Clients, NOps, Horizon, Profile, Faults, WithWorker,
          Retries,   \* the client library sends a command that was lost again, unless it is inside a WATCH
          Broken     \* a mistake to make, to see that the properties notice: "" is none

VARIABLES
  now,
  srv,       \* token -> [ref, id, ad, rd, data]: the hashes on the server
  dirty,     \* client -> has the watched key changed since WATCH
  watch,     \* client -> watched key or "none"
  pc, cur, res, left, mem,    \* of every client; mem: what it has read, and when it was called
  queue, faults
vars == <<now, srv, dirty, watch, pc, cur, res, left, mem, queue, faults>>

Tok == [a1 |-> [id |-> "u", ok |-> TRUE], a2 |-> [id |-> "u", ok |-> TRUE], a3 |-> [id |-> "u", ok |-> TRUE],
        r1 |-> [id |-> "u", ok |-> TRUE], r2 |-> [id |-> "u", ok |-> TRUE],
        b1 |-> [id |-> "v", ok |-> TRUE], s1 |-> [id |-> "v", ok |-> TRUE]]
C == [kind |-> "redis", max |-> 0, accL |-> AccL, refL |-> RefL, rejk |-> {}, mayk |-> {}, mayid |-> {}]
Procs == Clients \cup (IF WithWorker THEN {"worker"} ELSE {})

OpsOf ==
  CASE Profile = "rotate" ->
        {[op |-> "create", a |-> "a1", r |-> "r1", kv |-> <<>>],
         [op |-> "refresh", a |-> "a1", r |-> "r1", na |-> "a2", nr |-> "r2"], [op |-> "refresh", a |-> "a1", r |-> "r1", na |-> "a3", nr |-> "r2"],
         [op |-> "refresh", a |-> "a2", r |-> "r2", na |-> "a1", nr |-> "r1"],
         [op |-> "put", a |-> "a1", kv |-> <<<<"k", "1">>>>], [op |-> "destroytok", a |-> "a1"], [op |-> "check", a |-> "a1"]}
    [] Profile = "data" ->
        {[op |-> "create", a |-> "a1", r |-> "r1", kv |-> <<<<"k", "0">>>>],
         [op |-> "put", a |-> "a1", kv |-> <<<<"k", "1">>, <<"l", "1">>>>], [op |-> "put", a |-> "a1", kv |-> <<<<"k", "2">>, <<"l", "2">>>>],
         [op |-> "delete", a |-> "a1", ks |-> <<"k">>], [op |-> "get", a |-> "a1", ks |-> <<"k", "l">>], [op |-> "keys", a |-> "a1"],
         [op |-> "refresh", a |-> "a1", r |-> "r1", na |-> "a2", nr |-> "r1"]}
    [] Profile = "destroy" ->
        {[op |-> "create", a |-> "a1", r |-> "r1", kv |-> <<>>], [op |-> "create", a |-> "b1", r |-> "s1", kv |-> <<>>],
         [op |-> "refresh", a |-> "a1", r |-> "r1", na |-> "a2", nr |-> "r2"], [op |-> "put", a |-> "a1", kv |-> <<<<"k", "1">>>>],
         [op |-> "destroy", id |-> "u"], [op |-> "destroytok", a |-> "a2"], [op |-> "check", a |-> "a1"]}

----------------------------------------------------------------------------
DropKey(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
DropKeys(f, K) == [x \in DOMAIN f \ K |-> f[x]]
(* The server changes keys K: everyone else watching one of them will notice.     *)
Touch(p, K) == dirty' = [q \in Procs |-> IF q = p THEN FALSE ELSE dirty[q] \/ (watch[q] \in K)]
Unwatch(p) == watch' = [watch EXCEPT ![p] = "none"]

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Return(p, r) == /\ Goto(p, "idle") /\ res' = [res EXCEPT ![p] = r]

(* What a client makes of the metadata it has read, by its clock now.             *)
Judge(m) == IF m = <<>> THEN "notexists" ELSE IF m[1].rd <= now THEN "deleted" ELSE IF m[1].ad <= now THEN "expired" ELSE "ok"
Read(t) == IF t \in DOMAIN srv THEN <<srv[t]>> ELSE <<>>

Call(c) ==
  /\ pc[c] = "idle" /\ left[c] > 0
  /\ \E e \in OpsOf :
       /\ cur' = [cur EXCEPT ![c] = e]
       /\ Goto(c, CASE e.op \in {"put", "delete", "refresh"} -> "watch"
                    [] e.op \in {"check", "get", "keys"} -> "read"
                    [] e.op = "create" -> "md"
                    [] e.op = "destroy" -> "scan"
                    [] e.op = "destroytok" -> "del")
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ mem' = [mem EXCEPT ![c] = [at |-> now, md |-> <<>>, x |-> <<>>, keys |-> {}]]
  /\ res' = [res EXCEPT ![c] = "none"]
  /\ UNCHANGED <<now, srv, dirty, watch, queue, faults>>

----------------------------------------------------------------------------
(* The commands *)
DoWatch(c) ==
  /\ pc[c] = "watch"
  /\ watch' = [watch EXCEPT ![c] = cur[c].a] /\ dirty' = [dirty EXCEPT ![c] = FALSE]
  /\ Goto(c, "hget")
  /\ UNCHANGED <<now, srv, cur, res, left, mem, queue, faults>>
DoHGet(c) ==
  /\ pc[c] = "hget"
  /\ mem' = [mem EXCEPT ![c].md = Read(cur[c].a)]
  /\ Goto(c, "decide")
  /\ UNCHANGED <<now, srv, dirty, watch, cur, res, left, queue, faults>>
(* The client looks at what it has read; a step of its own, time may have passed.  *)
Decide(c) ==
  /\ pc[c] = "decide"
  /\ LET e == cur[c]
         j == Judge(mem[c].md)
         md == mem[c].md[1]
     IN  IF j = "notexists" \/ (j = "expired" /\ e.op # "refresh") THEN
           /\ Return(c, j) /\ Unwatch(c) /\ UNCHANGED mem
         ELSE IF j = "deleted" THEN
           /\ Goto(c, "report") /\ res' = [res EXCEPT ![c] = "notexists"] /\ Unwatch(c) /\ UNCHANGED mem
         ELSE IF e.op = "refresh" /\ md.ref # e.r THEN
           /\ Return(c, "refmis") /\ Unwatch(c) /\ UNCHANGED mem
         ELSE
           /\ mem' = [mem EXCEPT ![c].x = IF e.op = "refresh" THEN [ref |-> e.nr, id |-> md.id, ad |-> now + AccL, rd |-> now + RefL, data |-> <<>>] ELSE md]
           /\ Goto(c, "exec") /\ UNCHANGED <<res, watch>>
  /\ UNCHANGED <<now, srv, dirty, cur, left, queue, faults>>

(* MULTI ... EXEC: fails if the watched key has changed since WATCH.               *)
Effect(c) ==
  LET e == cur[c]
      x == mem[c].x
      old == Read(e.a)
      d == IF old = <<>> THEN <<>> ELSE old[1].data
  IN  CASE e.op = "put" -> (e.a :> [x EXCEPT !.data = ApplyKV(d, e.kv)]) @@ srv
        [] e.op = "delete" -> IF old = <<>> THEN srv ELSE [srv EXCEPT ![e.a].data = [k \in DOMAIN d \ Range(e.ks) |-> d[k]]]
        [] e.op = "refresh" -> (e.na :> [x EXCEPT !.data = d]) @@ DropKey(srv, e.a)
Keys(e) == IF e.op = "refresh" THEN {e.a, e.na} ELSE {e.a}
Exec(c) ==
  /\ pc[c] = "exec"
  /\ IF dirty[c] /\ Broken # "nowatch"
     THEN Goto(c, "watch") /\ Unwatch(c) /\ UNCHANGED <<srv, dirty, res>>
     ELSE srv' = Effect(c) /\ Touch(c, Keys(cur[c])) /\ Unwatch(c) /\ Return(c, "ok")
  /\ UNCHANGED <<now, cur, left, mem, queue, faults>>

MakeMd(c) ==     \* create computes its deadlines before it sends anything
  /\ pc[c] = "md"
  /\ mem' = [mem EXCEPT ![c].x = [ref |-> cur[c].r, id |-> Tok[cur[c].a].id, ad |-> now + AccL, rd |-> now + RefL, data |-> ApplyKV(<<>>, cur[c].kv)]]
  /\ Goto(c, "set")
  /\ UNCHANGED <<now, srv, dirty, watch, cur, res, left, queue, faults>>
DoSet(c) ==      \* MULTI DEL HSET PEXPIREAT EXEC
  /\ pc[c] = "set"
  /\ srv' = IF mem[c].x.rd + 1 <= now THEN DropKey(srv, cur[c].a) ELSE (cur[c].a :> mem[c].x) @@ srv
  /\ Touch(c, {cur[c].a}) /\ Return(c, "ok")
  /\ UNCHANGED <<now, watch, cur, left, mem, queue, faults>>
DoDel(c) ==
  /\ pc[c] = "del"
  /\ srv' = DropKey(srv, cur[c].a) /\ Touch(c, {cur[c].a}) /\ Return(c, "ok")
  /\ UNCHANGED <<now, watch, cur, left, mem, queue, faults>>
DoScan(c) ==     \* KEYS prefix id.*
  /\ pc[c] = "scan"
  /\ LET K == {t \in DOMAIN srv : srv[t].id = cur[c].id}
     IN  /\ mem' = [mem EXCEPT ![c].keys = K]
         /\ IF K = {} THEN Return(c, "ok") ELSE Goto(c, "delall") /\ UNCHANGED res
  /\ UNCHANGED <<now, srv, dirty, watch, cur, left, queue, faults>>
DoDelAll(c) ==
  /\ pc[c] = "delall"
  /\ srv' = DropKeys(srv, mem[c].keys) /\ Touch(c, mem[c].keys) /\ Goto(c, "scan")
  /\ UNCHANGED <<now, watch, cur, res, left, mem, queue, faults>>
DoRead(c) ==     \* HGET, HMGET, or HGET+HKEYS in one transaction
  /\ pc[c] = "read"
  /\ mem' = [mem EXCEPT ![c].md = Read(cur[c].a)]
  /\ Goto(c, "look")
  /\ UNCHANGED <<now, srv, dirty, watch, cur, res, left, queue, faults>>
Look(c) ==
  /\ pc[c] = "look"
  /\ LET j == Judge(mem[c].md)
     IN  IF j = "deleted" \/ (j = "notexists" /\ cur[c].op = "get")
         THEN Goto(c, "report") /\ res' = [res EXCEPT ![c] = "notexists"] ELSE Return(c, j)
  /\ UNCHANGED <<now, srv, dirty, watch, cur, left, mem, queue, faults>>
Report(c) ==
  /\ pc[c] = "report"
  /\ queue' = IF WithWorker THEN queue \cup {cur[c].a} ELSE queue
  /\ Goto(c, "idle")
  /\ UNCHANGED <<now, srv, dirty, watch, cur, res, left, mem, faults>>

(* The worker: WATCH, HGET, and DEL in a transaction if still dead.                 *)
WTake == /\ pc["worker"] = "idle" /\ queue # {}
         /\ \E t \in queue : queue' = queue \ {t} /\ cur' = [cur EXCEPT !["worker"] = [op |-> "reclaim", a |-> t]]
                             /\ watch' = [watch EXCEPT !["worker"] = t] /\ dirty' = [dirty EXCEPT !["worker"] = FALSE]
         /\ Goto("worker", "hget")
         /\ UNCHANGED <<now, srv, res, left, mem, faults>>
WGet == /\ pc["worker"] = "hget"
        /\ mem' = [mem EXCEPT !["worker"].md = Read(cur["worker"].a)]
        /\ Goto("worker", "decide")
        /\ UNCHANGED <<now, srv, dirty, watch, cur, res, left, queue, faults>>
WDecide == /\ pc["worker"] = "decide"
           /\ Goto("worker", IF Judge(mem["worker"].md) \in {"ok", "expired"} /\ Broken # "noLook" THEN "idle" ELSE "exec")
           /\ UNCHANGED <<now, srv, dirty, watch, cur, res, left, mem, queue, faults>>
WExec == /\ pc["worker"] = "exec"
         /\ IF dirty["worker"] /\ Broken # "worker" THEN queue' = queue \cup {cur["worker"].a} /\ UNCHANGED <<srv, dirty>>
            ELSE srv' = DropKey(srv, cur["worker"].a) /\ Touch("worker", {cur["worker"].a}) /\ UNCHANGED queue
         /\ Unwatch("worker") /\ Goto("worker", "idle")
         /\ UNCHANGED <<now, cur, res, left, mem, faults>>
Worker == WithWorker /\ (WTake \/ WGet \/ WDecide \/ WExec)

(* The server drops a key one unit after the refresh lifetime; watchers notice.      *)
Time == /\ now < Horizon /\ now' = now + 1
        /\ LET K == {t \in DOMAIN srv : srv[t].rd + 1 <= now'}
           IN  /\ srv' = DropKeys(srv, K)
               /\ dirty' = [q \in Procs |-> dirty[q] \/ (watch[q] \in K)]
        /\ UNCHANGED <<watch, pc, cur, res, left, mem, queue, faults>>

Command(c) == DoWatch(c) \/ DoHGet(c) \/ Exec(c) \/ DoSet(c) \/ DoDel(c) \/ DoScan(c) \/ DoDelAll(c) \/ DoRead(c)
(* The connection breaks: the command reaches the server or it does not, the client   *)
(* gets an error in any case.                                                          *)
Fault(c) ==
  /\ faults < Faults
  /\ pc[c] \in {"watch", "hget", "exec", "set", "del", "scan", "delall", "read"}
  /\ \/ UNCHANGED <<srv, dirty>>                                         \* lost before
     \/ /\ pc[c] = "exec" /\ ~dirty[c] /\ srv' = Effect(c) /\ Touch(c, Keys(cur[c]))     \* done, answer lost
     \/ /\ pc[c] = "set" /\ srv' = (cur[c].a :> mem[c].x) @@ srv /\ Touch(c, {cur[c].a})
     \/ /\ pc[c] = "del" /\ srv' = DropKey(srv, cur[c].a) /\ Touch(c, {cur[c].a})
     \/ /\ pc[c] = "delall" /\ srv' = DropKeys(srv, mem[c].keys) /\ Touch(c, mem[c].keys)
  /\ faults' = faults + 1
  /\ \/ Unwatch(c) /\ Return(c, "err")
     \/ Retries /\ pc[c] \in {"set", "del", "scan", "delall", "read"} /\ UNCHANGED <<pc, res, watch>>
     \/ Broken = "retryexec" /\ pc[c] = "exec" /\ UNCHANGED <<pc, res, watch>>
  /\ UNCHANGED <<now, cur, left, mem, queue>>

Init ==
  /\ now = 0 /\ srv = <<>> /\ faults = 0 /\ queue = {}
  /\ dirty = [p \in Procs |-> FALSE] /\ watch = [p \in Procs |-> "none"]
  /\ pc = [p \in Procs |-> "idle"] /\ cur = [p \in Procs |-> [op |-> "none"]] /\ res = [p \in Procs |-> "none"]
  /\ left = [c \in Clients |-> NOps] /\ mem = [p \in Procs |-> [at |-> 0, md |-> <<>>, x |-> <<>>, keys |-> {}]]
Next == Time \/ Worker \/ \E c \in Clients : Call(c) \/ Command(c) \/ Decide(c) \/ Look(c) \/ MakeMd(c) \/ Report(c) \/ Fault(c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The sessions the server stands for, in no order.                                  *)
Live(f, t0) == {[acc |-> t, ref |-> f[t].ref, id |-> f[t].id, ad |-> f[t].ad, rd |-> f[t].rd, data |-> f[t].data] : t \in {x \in DOMAIN f : f[x].rd > t0}}
AsSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Range(q) = S
AbsAt(t0) == [now |-> t0, open |-> TRUE, sess |-> AsSeq(Live(srv, t0)), dead |-> {}]
Sessions == Live(srv, now)

(* A change of the server during a step of p is the effect of the operation of p, at    *)
(* a time between its call and now, or it concerns no live session.                      *)
Outs(c) == UNION {Outcomes(C, Tok, AbsAt(t), cur[c]) : t \in mem[c].at..now}
Changed == Live(srv', now) # Live(srv, now)
(* deadlines count from the time the operation looked at the clock *)
Matches(o) == {x \in Range(o.st.sess) : x.rd > now} = Live(srv', now)
StepIsEffect ==
  \A c \in Clients :
    (pc[c] # "idle" /\ (pc'[c] # pc[c] \/ (faults' # faults /\ Cardinality(Clients) = 1)) /\ Changed) =>
      IF cur[c].op = "destroy"
      THEN Live(srv', now) \subseteq Live(srv, now) /\ \A x \in Live(srv, now) \ Live(srv', now) : x.id = cur[c].id
      ELSE \E o \in Outs(c) : o.res = "ok" /\ Matches(o)
WorkerIsHarmless == (WithWorker /\ pc["worker"] # pc'["worker"]) => ~Changed
TimeIsHarmless == (now' # now) => Live(srv', now') = {x \in Live(srv, now) : x.rd > now'}
(* Success means the effect was there at that step; other answers were true when read.   *)
OkIsEffect ==
  \A c \in Clients :
    (pc[c] \in {"exec", "set", "del"} /\ pc'[c] = "idle" /\ res'[c] = "ok") => \E o \in Outs(c) : o.res = "ok" /\ Matches(o)
Refinement == [][StepIsEffect /\ WorkerIsHarmless /\ TimeIsHarmless /\ OkIsEffect]_vars

(* Answers of reading and refused operations: true at the instant of reading.            *)
TruthAtRead ==
  [][\A c \in Clients :
       (pc[c] \in {"hget", "read"} /\ pc'[c] \in {"decide", "look"}) =>
          \A t \in now..(now + 1) :
            LET m == mem'[c].md
                j == IF m = <<>> THEN "notexists" ELSE IF m[1].rd <= t THEN "notexists" ELSE IF m[1].ad <= t THEN "expired" ELSE "ok"
            IN  j = Status(AbsAt(t), cur[c].a)]_vars

(* C03, C11: of two refreshes with the same token pair at most one succeeds per issue,   *)
(* and a token refreshed away or destroyed is dead until it is issued again: both follow  *)
(* from Refinement; stated once more, directly, on the hashes.                            *)
OneKey == \A t \in DOMAIN srv : srv[t].id = Tok[t].id
NoPartial == \A t \in DOMAIN srv : srv[t].ref # "nil"
=============================================================================
