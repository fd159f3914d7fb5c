------------------------------ MODULE Options ------------------------------
(* What a list of lifetime and size options means.  An option is a pair     *)
(* <<name, value>>; values of durations are in milliseconds, the options of *)
(* one list are applied from left to right.                                 *)
EXTENDS Integers, Sequences

Defaults == [accL |-> 3600000, refL |-> 86400000, max |-> 0, clear |-> 600000, batch |-> 128]
(* redis has neither a maximum size nor a sweep: the server itself expires keys *)

ApplyOption(c, o) ==
  CASE o[1] = "access"  -> [c EXCEPT !.accL = o[2], !.refL = IF @ < o[2] THEN o[2] ELSE @]
    [] o[1] = "refresh" -> [c EXCEPT !.refL = o[2], !.accL = IF @ > o[2] THEN o[2] ELSE @]
    [] o[1] = "max"     -> [c EXCEPT !.max = IF o[2] < 0 THEN 0 ELSE o[2]]
    [] o[1] = "clear"   -> [c EXCEPT !.clear = IF o[2] < 0 THEN 0 ELSE o[2]]
    [] o[1] = "batch"   -> [c EXCEPT !.batch = o[2]]
    [] OTHER -> c

RECURSIVE Fold(_, _)
Fold(c, opts) == IF opts = <<>> THEN c ELSE Fold(ApplyOption(c, opts[1]), Tail(opts))
Meaning(opts) == Fold(Defaults, opts)
=============================================================================
