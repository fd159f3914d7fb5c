----------------------------- MODULE TokenTrace -----------------------------
(* Judges recorded executions of token managers over real providers.           *)
(* Events: mcreate mget mrefresh mdestroy mdestroytok (through manager m),      *)
(* enc dec (cryptoer.Encode and Decode with the method and key of manager m),   *)
(* istok (IsToken, Split, Join), mktok (CreateToken),                           *)
(* edits (every single-character edit of t presented to manager m), bulk (many  *)
(* tokens issued at once), and the store's own operations.                      *)
(* calls = how many calls reached the store.                                    *)
EXTENDS TraceBase, Tokens

VARIABLES tid, i, s, k, enc
vars == <<tid, i, s, k, enc>>
(* s store, k tokens (see Tokens), enc: <<mk, token>> -> <<id, sid>>            *)

MK(e) == T(tid).cfg.mgrs[e.m]
Abandon == /\ i' = Len(T(tid).ev) + 1 /\ UNCHANGED <<tid, s, k, enc>>
Wrong(e, blame, expect) == /\ Say(tid, i, e, blame \cup (IF e.res = "panic" THEN {"C18"} ELSE {}), expect)
                           /\ Abandon
Go(s2, k2, enc2) == /\ s' = s2 /\ k' = k2 /\ enc' = enc2 /\ i' = i + 1 /\ UNCHANGED tid

(* Tokens as the store reads them; "" stands for a token that was not given out. *)
Tk(id) == ("" :> [id |-> id, ok |-> TRUE]) @@ Toks(tid)

StoreEvent(c, tok, e, blame) ==
  LET X == Explained(c, tok, s, e)
  IN  IF X = {}
      THEN Wrong(e, blame, {o.res : o \in Outcomes(c, tok, s, e)})
      ELSE Go((CHOOSE x \in X : TRUE).st, k, enc)

CreateEvent(c, e) ==
  LET ev == [op |-> "create", p |-> e.p, a |-> e.a, r |-> e.r, kv |-> e.kv, res |-> e.res]
  IN  IF e.res # "ok"
      THEN IF c.kind = "bolt" /\ e.u = "u:" /\ e.res = "err"   \* bolt cannot keep an empty id
           THEN Go(s, k, enc)
           ELSE Wrong(e, {"C16", "C15", "C01"}, {"ok"})
      ELSE IF ~Fresh(k, e.a, e.r) \/ ~Toks(tid)[e.a].ok \/ ~Toks(tid)[e.r].ok
           THEN Wrong(e, {"C16"}, {"new well-formed tokens"})
      ELSE IF e.ca # e.cr \/ e.ca # e.sid \/ ~ImageOk(k, e.u, e.ca)
           THEN Wrong(e, {"C16"}, {"the image of the user id"})
      ELSE LET X == Explained(c, Toks(tid), s, ev)
           IN  IF X = {} THEN Wrong(e, {"C16", "C01"}, {"ok"})
               ELSE Go((CHOOSE x \in X : TRUE).st, Image(Issue(k, MK(e), e.a, e.r), e.u, e.ca), enc)

GetEvent(e) ==
  IF Authentic(k, MK(e), e.t)
  THEN IF e.res # "ok" THEN Wrong(e, {"C15"}, {"ok"})
       ELSE IF e.sid # Toks(tid)[e.t].id \/ ~e.same THEN Wrong(e, {"C15", "C16"}, {Toks(tid)[e.t].id})
       ELSE Go(s, k, enc)
  ELSE IF e.res \in {"ok", "panic"} \/ e.calls # 0 THEN Wrong(e, {"C15"}, {"refused"})
       ELSE Go(s, k, enc)

RefreshEvent(c, e) ==
  LET tk == Tk(IF Toks(tid)[e.a].ok THEN Toks(tid)[e.a].id ELSE "-")
      ev == [op |-> "refresh", p |-> e.p, a |-> e.a, r |-> e.r, na |-> e.na, nr |-> e.nr, res |-> e.res]
  IN  IF ~Authentic(k, MK(e), e.a) \/ ~Authentic(k, MK(e), e.r)
      THEN IF e.res \in {"ok", "panic"} \/ e.calls # 0 THEN Wrong(e, {"C15"}, {"refused"})
           ELSE Go(s, k, enc)
      ELSE IF tk[e.a].id # tk[e.r].id
      THEN IF e.res \in {"ok", "panic"} THEN Wrong(e, {"C15", "C16"}, {"refused"}) ELSE Go(s, k, enc)
      ELSE IF e.res = "ok" /\ (~Fresh(k, e.na, e.nr) \/ ~tk[e.na].ok \/ ~tk[e.nr].ok \/ tk[e.na].id # tk[e.a].id \/ tk[e.nr].id # tk[e.a].id)
      THEN Wrong(e, {"C16"}, {"new well-formed tokens of the same id"})
      ELSE LET X == Explained(c, tk, s, ev)
           IN  IF X = {} THEN Wrong(e, {"C15", "C16", "C03"}, {o.res : o \in Outcomes(c, tk, s, ev)})
               ELSE Go((CHOOSE x \in X : TRUE).st, IF e.res = "ok" THEN Issue(k, MK(e), e.na, e.nr) ELSE k, enc)

DestroyEvent(c, e) ==
  IF e.res # "ok" THEN Wrong(e, {"C06", "C16"}, {"ok"})
  ELSE Go(IF e.u \in DOMAIN k.img THEN DoDestroy(s, k.img[e.u]) ELSE s, k, enc)

EncEvent(e) ==
  IF e.res # "ok" \/ ~Toks(tid)[e.t].ok THEN Wrong(e, {"C16"}, {"ok"})
  ELSE LET old == <<MK(e), e.t>>
       IN  IF old \in DOMAIN enc /\ enc[old] # <<e.id, e.sid>> /\ e.nodot THEN Wrong(e, {"C16"}, {"another token"})
           ELSE Go(s, Sign(k, MK(e), {e.t}), (old :> <<e.id, e.sid>>) @@ enc)

DecEvent(e) ==
  LET old == <<MK(e), e.t>>
  IN  IF ~Authentic(k, MK(e), e.t)
      THEN IF e.res \in {"ok", "panic"} THEN Wrong(e, {"C15", "C16"}, {"refused"}) ELSE Go(s, k, enc)
      ELSE IF e.res # "ok" THEN Wrong(e, {"C16", "C15"}, {"ok"})
      ELSE IF old \in DOMAIN enc
           THEN IF enc[old] # <<e.id, e.sid>> THEN Wrong(e, {"C16"}, {enc[old]}) ELSE Go(s, k, enc)
      ELSE IF e.id # "i:" \o Toks(tid)[e.t].id THEN Wrong(e, {"C16"}, {Toks(tid)[e.t].id}) ELSE Go(s, k, enc)

EditsEvent(e) ==
  IF ~(Range(e.acc) \subseteq Signed(k, MK(e))) \/ e.calls # 0 THEN Wrong(e, {"C15"}, {"refused"})
  ELSE Go(s, k, enc)

BulkEvent(e) ==
  IF e.distinct # e.n \/ e.bad # 0 THEN Wrong(e, {"C16"}, {"all different"})
  ELSE IF e.refused # 0 THEN Wrong(e, {"C15"}, {"accepted"})
  ELSE Go(s, k, enc)

(* IsToken, Split and Join: strings with at least two separators are tokens.    *)
IsTokEvent(e) ==
  LET want == IF \A j \in DOMAIN e.ts : Toks(tid)[e.ts[j]].ok THEN "ok" ELSE "invalid"
  IN  IF e.res # want \/ ~e.same THEN Wrong(e, {"C16", "C01"}, {want}) ELSE Go(s, k, enc)

(* CreateToken: a new pair that carries the id as it is given.                  *)
MkTokEvent(e) ==
  IF e.res # "ok" \/ ~Fresh(k, e.a, e.r) THEN Wrong(e, {"C16"}, {"new tokens"})
  ELSE IF \E t \in {e.a, e.r} : ~Toks(tid)[t].ok \/ Toks(tid)[t].id # e.id
       THEN Wrong(e, {"C16"}, {"well-formed tokens of the id"})
  ELSE Go(s, Issue(k, MK(e), e.a, e.r), enc)

AfterDestroy == IF \E j \in 1..(i - 1) : T(tid).ev[j].op \in {"mdestroy", "mdestroytok"} THEN {"C06"} ELSE {}

TickEvent(e) == Go([Tick(s, e.now) EXCEPT !.dead = {}], k, enc)

SameEvent(e) ==
  IF e.same THEN Go(s, k, enc)
  ELSE /\ Say(tid, i, e, Range(e.about), {TRUE}) /\ Abandon

Init == /\ tid \in DOMAIN Traces
        /\ i = 1 /\ s = Empty /\ k = NoKeys /\ enc = <<>>

Next == /\ i <= Len(T(tid).ev)
        /\ LET e == T(tid).ev[i]
               c == Cfg(tid)
           IN  CASE e.op = "mcreate" -> CreateEvent(c, e)
                 [] e.op = "mget" -> GetEvent(e)
                 [] e.op = "mrefresh" -> RefreshEvent(c, e)
                 [] e.op = "mdestroy" -> DestroyEvent(c, e)
                 [] e.op = "mdestroytok" -> StoreEvent(c, Toks(tid), [e EXCEPT !.op = "destroytok"], {"C06", "C16"})
                 [] e.op = "enc" -> EncEvent(e)
                 [] e.op = "dec" -> DecEvent(e)
                 [] e.op = "edits" -> EditsEvent(e)
                 [] e.op = "bulk" -> BulkEvent(e)
                 [] e.op = "tick" -> TickEvent(e)
                 [] e.op = "same" -> SameEvent(e)
                 [] e.op = "istok" -> IsTokEvent(e)
                 [] e.op = "mktok" -> MkTokEvent(e)
                 [] e.op = "mark" -> Go(s, k, enc)
                 [] e.op \in Ops -> StoreEvent(c, Toks(tid), e, {"C16"} \cup Speaks(e) \cup ResWrong(e, {}) \cup AfterDestroy)

Spec == Init /\ [][Next]_vars
=============================================================================
