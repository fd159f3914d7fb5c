----------------------------- MODULE BoltCrash -----------------------------
(* How a bolt store survives losing the process or the machine, page by page:   *)
(* a transaction writes the pages it changed to free places of the file, syncs,  *)
(* writes the older of two meta pages, syncs.  Writes not yet synced may be on    *)
(* the disk or not, in any combination, and a meta page may be torn.  Every       *)
(* operation of a session store is one transaction (the mistakes below split or   *)
(* reorder things).  What is found after the crash must be what the operations    *)
(* completed before it left, with the interrupted one fully there or not at all.  *)
(* The content of the store is abstract: the list of operations it has applied,   *)
(* spread over two leaf pages (one operation changes both, as a refresh changes    *)
(* the token and the metadata bucket).                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NPages,      \* pages of the file besides the metas
          MaxOps,
          Mistake      \* ""; "nosync": no sync between pages and meta; "split": an operation is two transactions;
                       \* "reuse": pages freed by a transaction are reused by the same one; "onemeta": always the same
                       \* meta page; "nofinal": an operation returns before its meta page is synced;
                       \* "trusttorn": recovery takes a torn meta page for good
VARIABLES disk,        \* page -> content, what is certainly on the disk
          cache,       \* sequence of <<page, content>>: written, not synced
          mem,         \* the metas and pages as the process sees them
          free,        \* pages the process knows to be free
           pc, cur,     \* progress of the transaction: [root, leaves, n] being made
          done,        \* number of operations that have returned
          phase        \* "run" | "found": after a crash
vars == <<disk, cache, mem, free, pc, cur, done, phase>>

Pages == 1..NPages
Metas == {100, 101}
Blank == [t |-> "blank"]
Torn == [t |-> "torn"]
Leaf(v) == [t |-> "leaf", v |-> v]
Root(a, b, f) == [t |-> "root", a |-> a, b |-> b, f |-> f]     \* two leaves, list of free pages
Meta(tx, r) == [t |-> "meta", tx |-> tx, root |-> r]

Best(d) ==
  LET M == {m \in Metas : d[m].t = "meta"}
      top == CHOOSE m \in M : \A x \in M : d[x].tx <= d[m].tx
  IN  IF \E m \in Metas : Mistake = "trusttorn" /\ d[m].t = "torn" THEN Torn
      ELSE IF M = {} THEN Blank ELSE d[top]

(* What a database file holds: how many operations, as seen in either leaf.        *)
Read(d) ==
  LET b == Best(d)
  IN  IF b.t # "meta" \/ d[b.root].t # "root" THEN <<"broken">>
      ELSE LET r == d[b.root]
           IN  IF d[r.a].t # "leaf" \/ d[r.b].t # "leaf" THEN <<"broken">> ELSE <<d[r.a].v, d[r.b].v>>

MetaFor(tx) == IF Mistake = "onemeta" THEN 100 ELSE IF tx % 2 = 0 THEN 100 ELSE 101

Init ==
  /\ disk = [x \in Pages \cup Metas |-> CASE x = 100 -> Meta(0, 1) [] x = 101 -> Blank [] x = 1 -> Root(2, 3, 4..NPages)
                                          [] x \in {2, 3} -> Leaf(0) [] OTHER -> Blank]
  /\ cache = <<>> /\ mem = disk /\ free = 4..NPages /\ pc = "idle" /\ cur = <<>> /\ done = 0 /\ phase = "run"

Write(x, c) == cache' = Append(cache, <<x, c>>) /\ mem' = [mem EXCEPT ![x] = c]
Sync(d, q) == [x \in DOMAIN d |-> LET I == {i \in DOMAIN q : q[i][1] = x}
                                  IN  IF I = {} THEN d[x] ELSE q[CHOOSE i \in I : \A j \in I : j <= i][2]]

(* A transaction: new leaves and a new root in free pages. half: which leaves it changes. *)
Begin(half) ==
  /\ phase = "run" /\ done < MaxOps
  /\ LET b == Best(mem)
         old == mem[b.root]
         F == IF Mistake = "reuse" THEN free \cup {b.root, old.a, old.b} ELSE free
     IN  \E S \in SUBSET F :
           /\ Cardinality(S) = 3
           /\ \E p \in Permutations(S) :
                LET q == [i \in 1..3 |-> p[CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]]
                    na == IF half = "b" THEN old.a ELSE q[1]
                    nb == IF half = "a" THEN old.b ELSE q[2]
                    freed == {b.root} \cup (IF half = "b" THEN {} ELSE {old.a}) \cup (IF half = "a" THEN {} ELSE {old.b})
                    used == {q[3]} \cup (IF half = "b" THEN {} ELSE {q[1]}) \cup (IF half = "a" THEN {} ELSE {q[2]})
                IN  cur' = [tx |-> b.tx + 1, root |-> q[3], a |-> na, b |-> nb, freed |-> freed, used |-> used, half |-> half,
                            va |-> mem[old.a].v, vb |-> mem[old.b].v]
  /\ UNCHANGED <<disk, cache, mem, free, done, phase>>

Start == pc = "idle" /\ Begin(IF Mistake = "split" THEN "a" ELSE "ab") /\ pc' = "a"
Second == pc = "half" /\ Begin("b") /\ pc' = "a"

WriteA == /\ phase = "run" /\ pc = "a"
          /\ IF cur.half = "b" THEN UNCHANGED <<cache, mem>> ELSE Write(cur.a, Leaf(cur.va + 1))
          /\ pc' = "b" /\ UNCHANGED <<disk, free, cur, done, phase>>
WriteB == /\ phase = "run" /\ pc = "b"
          /\ IF cur.half = "a" THEN UNCHANGED <<cache, mem>> ELSE Write(cur.b, Leaf(cur.vb + 1))
          /\ pc' = "root" /\ UNCHANGED <<disk, free, cur, done, phase>>
WriteRoot == /\ phase = "run" /\ pc = "root"
             /\ Write(cur.root, Root(cur.a, cur.b, (free \ cur.used) \cup cur.freed))
             /\ pc' = IF Mistake = "nosync" THEN "meta" ELSE "sync"
             /\ UNCHANGED <<disk, free, cur, done, phase>>
SyncPages == /\ phase = "run" /\ pc = "sync"
             /\ disk' = Sync(disk, cache) /\ cache' = <<>> /\ pc' = "meta" /\ UNCHANGED <<mem, free, cur, done, phase>>
WriteMeta == /\ phase = "run" /\ pc = "meta"
             /\ Write(MetaFor(cur.tx), Meta(cur.tx, cur.root))
             /\ pc' = IF Mistake = "nofinal" THEN "end" ELSE "sync2"
             /\ UNCHANGED <<disk, free, cur, done, phase>>
SyncMeta == /\ phase = "run" /\ pc = "sync2"
            /\ disk' = Sync(disk, cache) /\ cache' = <<>> /\ pc' = "end" /\ UNCHANGED <<mem, free, cur, done, phase>>
Finish == /\ phase = "run" /\ pc = "end"
          \* pages of the version replaced just now become free for the next transaction
          /\ free' = (free \ cur.used) \cup cur.freed
          /\ IF cur.half = "a" THEN pc' = "half" /\ UNCHANGED done ELSE pc' = "idle" /\ done' = done + 1
          /\ cur' = <<>> /\ UNCHANGED <<disk, cache, mem, phase>>

(* The process dies: everything written reaches the disk. *)
Die == /\ phase = "run" /\ disk' = Sync(disk, cache) /\ phase' = "found" /\ cache' = <<>> /\ UNCHANGED <<mem, free, pc, cur, done>>
(* The machine goes down: any of the unsynced writes is lost, the others may be torn if they are meta pages. *)
Lose == /\ phase = "run" /\ cache # <<>>
        /\ \E K \in SUBSET (DOMAIN cache) : \E X \in SUBSET {i \in K : cache[i][1] \in Metas} :
             disk' = Sync(disk, SelectSeq([i \in DOMAIN cache |-> IF i \in X THEN <<cache[i][1], Torn>>
                                                                  ELSE IF i \in K THEN cache[i] ELSE <<0, Blank>>],
                                          LAMBDA w : w[1] # 0))
        /\ phase' = "found" /\ cache' = <<>> /\ UNCHANGED <<mem, free, pc, cur, done>>
(* The store is opened again and goes on. *)
Reopen == /\ phase = "found" /\ Read(disk) # <<"broken">>
          /\ mem' = disk /\ free' = disk[Best(disk).root].f
          /\ done' = Read(disk)[1] /\ pc' = "idle" /\ cur' = <<>> /\ phase' = "run"
          /\ UNCHANGED <<disk, cache>>

Next == Start \/ Second \/ WriteA \/ WriteB \/ WriteRoot \/ SyncPages \/ WriteMeta \/ SyncMeta \/ Finish \/ Die \/ Lose \/ Reopen
Spec == Init /\ [][Next]_vars
View == <<disk, cache, free, pc, cur, done, phase, Best(mem)>>
----------------------------------------------------------------------------
(* C12 *)
Survives == phase = "found" => Read(disk) \in ({<<done, done>>} \cup IF pc = "idle" THEN {} ELSE {<<done + 1, done + 1>>})
(* While it runs, the process reads what has been done. *)
Steady == (phase = "run" /\ pc = "idle") => Read(mem) = <<done, done>>
(* C08: pages are not lost: what is not reachable is free. *)
Reach == LET b == Best(mem) IN {b.root, mem[b.root].a, mem[b.root].b}
NoLeak == (phase = "run" /\ pc = "idle") => free = Pages \ Reach
=============================================================================
