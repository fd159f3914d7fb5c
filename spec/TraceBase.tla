------------------------------ MODULE TraceBase ------------------------------
(* What the judges of recorded traces share: reading the traces, the          *)
(* configuration a trace was recorded under, when a recorded result is         *)
(* explained, and which properties an event speaks about.                      *)
EXTENDS Store, Options, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

T(t) == Traces[t]
(* The configuration an option list means, in the setting of the trace. *)
CfgOf(t, o) ==
          LET m == Meaning(o)
          IN  [kind |-> T(t).cfg.kind,
               max |-> IF T(t).cfg.kind = "redis" THEN 0 ELSE m.max,
               clear |-> IF T(t).cfg.kind = "redis" THEN 0 ELSE m.clear,
               accL |-> m.accL, refL |-> m.refL,
               rejk |-> Range(T(t).cfg.rejk), mayk |-> Range(T(t).cfg.mayk),
               mayid |-> Range(T(t).cfg.mayid)]
Cfg(t) == CfgOf(t, T(t).cfg.opts)
(* The configuration of every provider of the trace: each may have options of its own, *)
Cfgs(t) == [p \in DOMAIN T(t).cfg.store |->
              IF "popts" \in DOMAIN T(t).cfg THEN CfgOf(t, T(t).cfg.popts[p]) ELSE Cfg(t)]
(* and others after it was closed and opened again.                                    *)
Reopened(t, cfgs, e) == IF "opts" \in DOMAIN e THEN [cfgs EXCEPT ![e.p] = CfgOf(t, e.opts)] ELSE cfgs
Toks(t) == T(t).tok
StoreOf(t, e) == T(t).cfg.store[e.p]       \* which store the provider of the event works on

Ops == {"create", "refresh", "check", "put", "get", "keys", "delete", "destroy",
        "destroytok", "clear", "close"}

----------------------------------------------------------------------------
(* Which properties an event speaks about.                                     *)
Speaks(e) ==
  CASE e.op \in {"check"} -> {"C01"}
    [] e.op \in {"create"} -> {"C01"}
    [] e.op \in {"put", "get", "keys", "delete"} -> {"C05"}
    [] e.op = "refresh" -> {"C03"}
    [] e.op \in {"destroy", "destroytok", "clear"} -> {"C06"}
    [] e.op = "close" -> {"C09"}
    [] OTHER -> {}

(* What an accepted event may have done to every session watched later. *)
Marks(c, e) ==
  CASE e.op \in Ops ->
        (IF e.res # "ok" THEN {"C04"} ELSE {})
        \cup (CASE e.op = "create" -> {"C01", "C05"} \cup (IF c.max > 0 THEN {"C07"} ELSE {})
                [] e.op = "refresh" -> {"C03"} \cup (IF e.res = "ok" THEN {"C02"} ELSE {})
                                              \cup (IF c.max > 0 THEN {"C07"} ELSE {})
                [] e.op \in {"put", "delete"} -> {"C05"}
                [] e.op \in {"destroy", "destroytok", "clear"} -> {"C06"}
                [] e.op = "close" -> {"C09"}
                [] OTHER -> {})
    [] e.op = "tick" -> {"C02"} \cup (IF c.clear > 0 /\ (e.now - e.from) >= c.clear THEN {"C08"} ELSE {})
    [] e.op = "reopen" -> {"C12"}
    [] e.op = "mark" -> Range(e.about)
    [] OTHER -> {}

ResWrong(e, R) ==
  LET E == R \cup {e.res}
  IN  (IF E \cap {"ok", "expired", "notexists", "invalid"} = E /\ e.op \in {"check", "put", "get", "keys", "delete"}
       THEN {"C01"} ELSE {})
      \cup (IF "expired" \in E THEN {"C02"} ELSE {})
      \cup (IF "closed" \in E THEN {"C09"} ELSE {})
      \cup (IF "err" \in R /\ e.res = "ok" THEN {"C04", "C20"} ELSE {})
      \cup (IF e.res \in {"panic", "hang"} THEN {"C18"} ELSE {})
      \cup (IF e.op = "refresh" THEN {"C01"} ELSE {})

----------------------------------------------------------------------------
OutMatches(e, o) ==
  IF o.res # "ok" THEN TRUE
  ELSE CASE e.op = "get" -> e.vals = o.out
         [] e.op = "keys" -> Range(e.keys) = o.out /\ Len(e.keys) = Cardinality(o.out)
         [] OTHER -> TRUE

(* A write to the storage failed: the operation may be refused.                  *)
WriteFailed(e) == "wf" \in DOMAIN e /\ e.wf
Explained(c, tok, s, e) ==
  {o \in Outcomes(c, tok, s, e) \cup (IF WriteFailed(e) THEN {[st |-> s, res |-> "err", out |-> None]} ELSE {})
     : o.res = e.res /\ OutMatches(e, o)}

Say(t, n, e, blame, expect) ==
  PrintT("MISMATCH " \o ToJson([trace |-> T(t).name, n |-> n, ev |-> e, blame |-> blame, expect |-> expect]))
=============================================================================
