----------------------------- MODULE DiskTrace -----------------------------
(* Judges what bolt stores do to their file, step by step, against the rules    *)
(* of the transactions of BoltCrash: a meta page is written only when every page *)
(* it stands for is synced, never over the newest synced one, one transaction    *)
(* after the other; and an operation that succeeded has left nothing unsynced.    *)
(* Events: dwrite (pages) dmeta (pages, tx) dsync dsize, and the operations.       *)
EXTENDS TraceBase, Integers

VARIABLES tid, i, un, newest, slot
vars == <<tid, i, un, newest, slot>>
(* un pages written and not synced; newest transaction whose meta page is written, in slot; -1 unknown *)

Go == i' = i + 1 /\ UNCHANGED tid
Wrong(e, expect) == /\ Say(tid, i, e, {"C12"} \cup Range(T(tid).cfg.tags), expect)
                    /\ i' = Len(T(tid).ev) + 1 /\ UNCHANGED <<tid, un, newest, slot>>

Writes == {"create", "refresh", "put", "delete", "destroy", "destroytok", "clear"}
Next ==
  /\ i <= Len(T(tid).ev)
  /\ LET e == T(tid).ev[i]
     IN  CASE e.op = "dwrite" -> un' = un \cup Range(e.pages) /\ UNCHANGED <<newest, slot>> /\ Go
           [] e.op = "dsync" -> un' = {} /\ UNCHANGED <<newest, slot>> /\ Go
           [] e.op = "dmeta" ->
                IF un # {} THEN Wrong(e, {"synced before"})
                ELSE IF newest # -1 /\ (e.tx # newest + 1 \/ e.pages[1] = slot) THEN Wrong(e, {newest + 1, 1 - slot})
                ELSE un' = {e.pages[1]} /\ newest' = e.tx /\ slot' = e.pages[1] /\ Go
           [] e.op \in Writes /\ e.res = "ok" /\ un # {} -> Wrong(e, {"synced"})
           [] OTHER -> UNCHANGED <<un, newest, slot>> /\ Go

Init == tid \in DOMAIN Traces /\ i = 1 /\ un = {} /\ newest = -1 /\ slot = -1
Spec == Init /\ [][Next]_vars
=============================================================================
