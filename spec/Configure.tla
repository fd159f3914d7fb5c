----------------------------- MODULE Configure -----------------------------
(* What options that name components mean: of several options of one name the  *)
(* last counts, an option not given has its default, a database or client given *)
(* makes the file name or url irrelevant. An option is a pair <<name, value>>;   *)
(* components are known by names of the harness.                                 *)
EXTENDS Integers, Sequences, TLC

Defaults ==
  [manager |-> [method |-> "HMD5", key |-> "default", coder |-> "gob", provider |-> ""],
   bolt |-> [db |-> "", file |-> "sessionid.db", mode |-> "600", bucket |-> "sessionid"],
   redis |-> [client |-> "", url |-> "", prefix |-> "sessionid.provider.redis.", meta |-> "__private_provider_redis", coder |-> "gob"]]

RECURSIVE Chosen(_, _)
Chosen(c, opts) == IF opts = <<>> THEN c ELSE Chosen([c EXCEPT ![opts[1][1]] = opts[1][2]], Tail(opts))

(* name -> the component used under that name *)
Used(kind, opts) ==
  LET c == Chosen(Defaults[kind], opts)
  IN  CASE kind = "manager" -> c
        [] kind = "bolt" -> ("store" :> IF c.db # "" THEN c.db ELSE c.file) @@ c
        [] kind = "redis" -> ("server" :> IF c.client # "" THEN c.client ELSE c.url) @@ c

(* Opening a file somebody else holds for a time: the timeout given last, or 30 *)
(* seconds; without a timeout (0 or less) it waits as long as it takes.          *)
Timeout(ts) == IF ts = <<>> THEN 30000 ELSE ts[Len(ts)]
Slack == 110                 \* the file is tried every 50 ms
OpenOutcomes(ts, held, took) ==
  LET t == Timeout(ts)
      waits == t <= 0 \/ held <= t + Slack
      gives == t > 0 /\ held >= t - Slack
  IN  (IF waits /\ took >= held /\ took <= held + Slack THEN {"ok"} ELSE {})
      \cup (IF gives /\ took >= t /\ took <= t + Slack THEN {"err"} ELSE {})

(* The registry of signing methods: a name gives what was registered under it last. *)
Standard == {"HMD5", "HS1", "HS256", "HS384", "HS512"}
Registry0 == [n \in Standard |-> n]
Register(reg, n, m) == (n :> m) @@ reg
LookUp(reg, n) == IF n \in DOMAIN reg THEN reg[n] ELSE "none"
=============================================================================
