---------------------------- MODULE SessionCache ----------------------------
(* A session object: an access token, a private cache, and what its operations *)
(* do to the cache and to the store behind it.  An object is a record           *)
(*   tok    symbol of its access token                                          *)
(*   cache  key -> [ex |-> TRUE, v |-> encoded value] or [ex |-> FALSE, v |-> ""] *)
(*          (the key was observed to be missing)                                *)
(* D(v, ty) is what decoding the encoded value v into a new variable of type ty *)
(* gives: [ok, out].                                                            *)
(* inj says what the harness made the store do to the one call the operation    *)
(* makes: "" nothing, "before" fail without doing anything, "after" do it and   *)
(* then fail all the same, "short" answer with too few values.                  *)
EXTENDS Store

NewObject(t) == [tok |-> t, cache |-> <<>>]

Missing == [ex |-> FALSE, v |-> ""]
Have(v) == [ex |-> TRUE, v |-> v]

RECURSIVE CachePut(_, _)
CachePut(ca, kv) == IF kv = <<>> THEN ca ELSE CachePut((kv[1][1] :> Have(kv[1][2])) @@ ca, Tail(kv))
RECURSIVE CacheSeen(_, _, _)
CacheSeen(ca, ks, out) ==
  IF ks = <<>> THEN ca
  ELSE CacheSeen((Head(ks) :> IF Head(out)[1] THEN Have(Head(out)[2]) ELSE Missing) @@ ca, Tail(ks), Tail(out))
CacheDrop(ca, ks) == [k \in DOMAIN ca \ ks |-> ca[k]]

(* What the store answers, the harness' meddling included.                      *)
StoreSays(c, tok, s, op, inj) ==
  LET O == Outcomes(c, tok, s, op)
  IN  CASE inj = "" -> O
        [] inj = "before" -> {[st |-> s, res |-> "err", out |-> None]}
        [] inj = "after" -> {[st |-> o.st, res |-> "err", out |-> None] : o \in O}
        [] inj = "short" -> {IF o.res = "ok" THEN [o EXCEPT !.res = "err"] ELSE o : o \in O}

(* One call through to the store which, when it succeeds, does F to the cache.  *)
Through(c, tok, s, ca, op, inj, F(_)) ==
  {[st |-> o.st, cache |-> IF o.res = "ok" THEN F(o.out) ELSE ca, res |-> o.res,
    out |-> "", keys |-> IF o.res = "ok" /\ op.op = "keys" THEN o.out ELSE {}] : o \in StoreSays(c, tok, s, op, inj)}

Still(s, ca, res, out) == [st |-> s, cache |-> ca, res |-> res, out |-> out, keys |-> {}]

Decoded(s, ca, before, d) ==
  IF d.ok THEN {Still(s, ca, "ok", d.out)}
  \* a value that could not be decoded may be kept for the next attempt, or not
  ELSE {Still(s, ca, "decerr", ""), Still(s, before, "decerr", "")}

(* The operations of an object ob.  The results "anyerr" stand for any error.   *)
SGet(c, tok, s, ob, e, D(_, _)) ==
  IF e.tgt # "ptr" THEN {Still(s, ob.cache, "anyerr", "")}
  ELSE IF e.k \in DOMAIN ob.cache
  THEN IF ob.cache[e.k].ex THEN Decoded(s, ob.cache, ob.cache, D(ob.cache[e.k].v, e.ty))
       ELSE {Still(s, ob.cache, "nokey", "")}
  ELSE UNION {
    IF o.res # "ok" THEN {Still(o.st, ob.cache, o.res, "")}
    ELSE IF ~o.out[1][1] THEN {Still(o.st, (e.k :> Missing) @@ ob.cache, "nokey", "")}
    ELSE Decoded(o.st, (e.k :> Have(o.out[1][2])) @@ ob.cache, ob.cache, D(o.out[1][2], e.ty))
    : o \in StoreSays(c, tok, s, [op |-> "get", a |-> ob.tok, ks |-> <<e.k>>], e.inj)}

SPrepare(c, tok, s, ob, e) ==
  LET ks == SelectSeq(e.ks, LAMBDA k : k \notin DOMAIN ob.cache)
  IN  IF ks = <<>> THEN {Still(s, ob.cache, "ok", "")}
      ELSE Through(c, tok, s, ob.cache, [op |-> "get", a |-> ob.tok, ks |-> ks], e.inj, LAMBDA out : CacheSeen(ob.cache, ks, out))

(* bad: one of the values cannot be encoded *)
SPut(c, tok, s, ob, e) ==
  IF e.bad THEN {Still(s, ob.cache, "anyerr", "")}
  ELSE IF e.kv = <<>> THEN {Still(s, ob.cache, "ok", "")}
  ELSE Through(c, tok, s, ob.cache, [op |-> "put", a |-> ob.tok, kv |-> e.kv], e.inj, LAMBDA out : CachePut(ob.cache, e.kv))

(* Delete takes the token to work on; the cache is that of the object's own.    *)
SDelete(c, tok, s, ob, e) ==
  Through(c, tok, s, ob.cache, [op |-> "delete", a |-> e.a, ks |-> e.ks], e.inj,
          LAMBDA out : IF e.a = ob.tok THEN CacheDrop(ob.cache, Range(e.ks)) ELSE ob.cache)

SKeys(c, tok, s, ob, e) == Through(c, tok, s, ob.cache, [op |-> "keys", a |-> ob.tok], e.inj, LAMBDA out : ob.cache)
SCheck(c, tok, s, ob, e) == Through(c, tok, s, ob.cache, [op |-> "check", a |-> ob.tok], e.inj, LAMBDA out : ob.cache)
SDestroy(c, tok, s, ob, e) == Through(c, tok, s, ob.cache, [op |-> "destroytok", a |-> ob.tok], e.inj, LAMBDA out : ob.cache)

ObjOps == {"sget", "sprepare", "sput", "sdelete", "skeys", "scheck", "sdestroy"}
ObjOutcomes(c, tok, s, ob, e, D(_, _)) ==
  CASE e.op = "sget" -> SGet(c, tok, s, ob, e, D)
    [] e.op = "sprepare" -> SPrepare(c, tok, s, ob, e)
    [] e.op = "sput" -> SPut(c, tok, s, ob, e)
    [] e.op = "sdelete" -> SDelete(c, tok, s, ob, e)
    [] e.op = "skeys" -> SKeys(c, tok, s, ob, e)
    [] e.op = "scheck" -> SCheck(c, tok, s, ob, e)
    [] e.op = "sdestroy" -> SDestroy(c, tok, s, ob, e)
=============================================================================
