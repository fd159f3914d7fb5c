------------------------------- MODULE Tokens -------------------------------
(* What a token manager must accept and issue, on top of Store.               *)
(* A manager has a name mk for its method and key.  signed[mk] is the set of  *)
(* strings signed with that method and key; img maps user ids to the ids      *)
(* their tokens carry.                                                        *)
EXTENDS Store

NoKeys == [signed |-> <<>>, img |-> <<>>, issued |-> {}]

Signed(k, mk) == IF mk \in DOMAIN k.signed THEN k.signed[mk] ELSE {}

(* Exactly the signed strings are authentic - character for character.        *)
Authentic(k, mk, t) == t \in Signed(k, mk)

Sign(k, mk, ts) == [k EXCEPT !.signed = (mk :> (Signed(k, mk) \cup ts)) @@ @]

(* New tokens must be new and different.                                      *)
Fresh(k, a, r) == a # r /\ {a, r} \cap k.issued = {}

Issue(k, mk, a, r) == [Sign(k, mk, {a, r}) EXCEPT !.issued = @ \cup {a, r}]

(* The carried id is a one-to-one image of the user id.                       *)
ImageOk(k, u, c) ==
  /\ (u \in DOMAIN k.img => k.img[u] = c)
  /\ \A v \in DOMAIN k.img : v # u => k.img[v] # c
Image(k, u, c) == [k EXCEPT !.img = (u :> c) @@ @]
=============================================================================
