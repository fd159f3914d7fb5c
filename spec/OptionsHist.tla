---------------------------- MODULE OptionsHist ----------------------------
(* C19 and C21 said without folding, checked against Options and Configure for  *)
(* every option list up to a length; and every sequence of registrations.         *)
EXTENDS Configure, FiniteSets
O == INSTANCE Options

CONSTANTS Length, Vals
VARIABLES opts, kind, reg
vars == <<opts, kind, reg>>

Lists(S) == UNION {[1..n -> S] : n \in 0..Length}
LifeOpts == ({"access", "refresh"} \X Vals) \cup ({"max"} \X {-3, 0, 2}) \cup {<<"clear", 0>>}
Names(k) == DOMAIN Defaults[k]
NameOpts(k) == Names(k) \X {"x", "y"}

Init == /\ reg = Registry0
        /\ \/ kind = "life" /\ opts \in Lists(LifeOpts)
           \/ kind \in DOMAIN Defaults /\ opts \in UNION {[1..n -> NameOpts(kind)] : n \in 0..(Length - 1)}
           \/ kind = "registry" /\ opts = <<>>
Next == /\ kind = "registry" /\ Len(opts) < Length
        /\ \E n \in {"HS256", "new"}, m \in {"f", "g"} : reg' = Register(reg, n, m) /\ opts' = Append(opts, <<n, m>>)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Last(n) == LET I == {i \in DOMAIN opts : opts[i][1] = n} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
Given(n, d) == IF Last(n) = 0 THEN d ELSE opts[Last(n)][2]
After(n, i) == {opts[j][2] : j \in {q \in DOMAIN opts : q > i /\ opts[q][1] = n}}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

(* The access lifetime is the last one given, cut down to the refresh lifetimes given  *)
(* after it; the refresh lifetime the last one given, drawn up by the access lifetimes  *)
(* given after it.                                                                      *)
Lifetimes ==
  kind = "life" =>
    LET m == O!Meaning(opts)
    IN  /\ m.accL <= m.refL
        /\ m.accL = Least({Given("access", 3600000)} \cup After("refresh", Last("access")))
        /\ m.refL = Most({Given("refresh", 86400000)} \cup After("access", Last("refresh")))
        /\ (opts # <<>> /\ opts[Len(opts)][1] = "access") => m.accL = opts[Len(opts)][2]
        /\ (opts # <<>> /\ opts[Len(opts)][1] = "refresh") => m.refL = opts[Len(opts)][2]
        /\ m.max = LET g == Given("max", 0) IN IF g < 0 THEN 0 ELSE g
        /\ m.clear = Given("clear", 600000)
(* Of options of one name the last counts, one not given has its default.               *)
LastCounts ==
  kind \in DOMAIN Defaults =>
    /\ \A n \in Names(kind) : Used(kind, opts)[n] = Given(n, Defaults[kind][n])
    /\ kind = "bolt" => Used(kind, opts)["store"] = IF Last("db") = 0 THEN Given("file", "sessionid.db") ELSE Given("db", "")
    /\ kind = "redis" => Used(kind, opts)["server"] = IF Last("client") = 0 THEN Given("url", "") ELSE Given("client", "")
(* A name stands for what was registered under it last.                                  *)
Registered == kind = "registry" => \A n \in Standard \cup {"new"} : LookUp(reg, n) = Given(n, IF n \in Standard THEN n ELSE "none")
=============================================================================
