------------------------------ MODULE Sharing ------------------------------
(* C14 (and the slices of options, C21): who may change which bytes.  Memory is  *)
(* a set of cells, each with some bytes and possibly spare room behind them that   *)
(* is another cell's bytes.  Callers write to every cell they hold, and append to   *)
(* it; the store copies what comes in and what goes out.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NCells, Keys, Callers, Vals,
          Mistake        \* ""; "keepin": the store keeps the caller's bytes; "handout": Get hands out the store's own;
                         \* "arena": one Get's answers lie behind one another; "unmap": Close takes
                         \* back bytes handed out
VARIABLES mem,           \* cell -> bytes | "free" | "gone"
          behind,        \* cell -> cell whose bytes lie in its spare room | 0
          store,         \* key -> cell | 0
          holds,         \* caller -> set of cells
          truth,         \* key -> bytes the store has to give back | "none"
          kept,          \* caller -> cell -> bytes the caller left or was given there
          open
vars == <<mem, behind, store, holds, truth, kept, open>>
Cells == 1..NCells
Free == {c \in Cells : mem[c] = "free"}

Init == /\ mem = [c \in Cells |-> "free"] /\ behind = [c \in Cells |-> 0] /\ store = [k \in Keys |-> 0]
        /\ holds = [x \in Callers |-> {}] /\ truth = [k \in Keys |-> "none"]
        /\ kept = [x \in Callers |-> [c \in Cells |-> "none"]] /\ open = TRUE

(* A caller makes a slice of its own. *)
Make(x) == \E c \in Free, v \in Vals :
  /\ mem' = [mem EXCEPT ![c] = v] /\ holds' = [holds EXCEPT ![x] = @ \cup {c}] /\ kept' = [kept EXCEPT ![x][c] = v]
  /\ UNCHANGED <<behind, store, truth, open>>
(* It changes one it holds, or appends to it. *)
Scribble(x) == \E c \in holds[x], v \in Vals :
  /\ mem[c] # "gone"
  /\ mem' = [mem EXCEPT ![c] = v] /\ kept' = [kept EXCEPT ![x][c] = v]
  /\ UNCHANGED <<behind, store, holds, truth, open>>
AppendTo(x) == \E c \in holds[x], v \in Vals :
  /\ behind[c] # 0 /\ mem' = [mem EXCEPT ![behind[c]] = v]
  /\ UNCHANGED <<behind, store, holds, truth, kept, open>>
Drop(x) == \E c \in holds[x] :
  /\ holds' = [holds EXCEPT ![x] = @ \ {c}] /\ kept' = [kept EXCEPT ![x][c] = "none"]
  /\ mem' = IF (\E k \in Keys : store[k] = c) \/ (\E y \in Callers \ {x} : c \in holds[y]) THEN mem ELSE [mem EXCEPT ![c] = "free"]
  /\ behind' = [behind EXCEPT ![c] = 0]
  /\ UNCHANGED <<store, truth, open>>

Put(x) == open /\ \E k \in Keys, c \in holds[x] :
  /\ truth' = [truth EXCEPT ![k] = mem[c]]
  /\ IF Mistake = "keepin" THEN store' = [store EXCEPT ![k] = c] /\ UNCHANGED mem
     ELSE IF Mistake = "handout" /\ store[k] # 0 THEN mem' = [mem EXCEPT ![store[k]] = mem[c]] /\ UNCHANGED store
     ELSE \E d \in Free : mem' = [mem EXCEPT ![d] = mem[c]] /\ store' = [store EXCEPT ![k] = d]
  /\ UNCHANGED <<behind, holds, kept, open>>

Get1(x) == open /\ \E k \in Keys :
  /\ store[k] # 0
  /\ IF Mistake \in {"handout", "unmap"}
     THEN /\ holds' = [holds EXCEPT ![x] = @ \cup {store[k]}] /\ kept' = [kept EXCEPT ![x][store[k]] = mem[store[k]]]
          /\ UNCHANGED mem
     ELSE \E d \in Free : /\ mem' = [mem EXCEPT ![d] = mem[store[k]]] /\ holds' = [holds EXCEPT ![x] = @ \cup {d}]
                          /\ kept' = [kept EXCEPT ![x][d] = mem[store[k]]]
  /\ UNCHANGED <<behind, store, truth, open>>
Get2(x) == open /\ \E k, l \in {j \in Keys : store[j] # 0} : \E d, e \in Free :
  /\ k # l /\ d # e
  /\ mem' = [mem EXCEPT ![d] = mem[store[k]], ![e] = mem[store[l]]] /\ holds' = [holds EXCEPT ![x] = @ \cup {d, e}]
  /\ kept' = [kept EXCEPT ![x][d] = mem[store[k]], ![x][e] = mem[store[l]]]
  /\ behind' = IF Mistake = "arena" THEN [behind EXCEPT ![d] = e] ELSE behind
  /\ UNCHANGED <<store, truth, open>>
Close == /\ open /\ open' = FALSE
         /\ mem' = IF Mistake = "unmap" THEN [c \in Cells |-> IF \E k \in Keys : store[k] = c THEN "gone" ELSE mem[c]] ELSE mem
         /\ UNCHANGED <<behind, store, holds, truth, kept>>
Next == (\E x \in Callers : Make(x) \/ Scribble(x) \/ AppendTo(x) \/ Drop(x) \/ Put(x) \/ Get1(x) \/ Get2(x)) \/ Close
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
StoreKeeps == open => \A k \in Keys : store[k] # 0 => mem[store[k]] = truth[k]
CallersKeep == \A x \in Callers, c \in Cells : c \in holds[x] => mem[c] = kept[x][c]
=============================================================================
