----------------------------- MODULE TokensImpl -----------------------------
(* Token managers as the code builds them - an id image, a session id and a    *)
(* keyed signature joined by dots, read back by cutting at the first and the   *)
(* last dot - over the store of Store, against an adversary who knows every     *)
(* token ever issued and recombines what they are made of (signatures cannot    *)
(* be made without the key).  A string is a sequence of atoms: characters,       *)
(* session ids and signatures.                                                   *)
EXTENDS Store

CONSTANTS Users,        \* user ids: sequences of atoms
          Managers,     \* names of the managers, all over one store
          KeyOf,        \* manager -> name of its method and key
          Coding,       \* "image": ids are carried as a one-to-one image without dots;
                        \* "plain": as they are (a mistake)
          Check,        \* "full"; "noverify-refresh": Refresh trusts the second token (a mistake);
                        \* "noid": Refresh does not compare the ids (a mistake)
          MaxIssue

VARIABLES st, issued, n
vars == <<st, issued, n>>
(* issued: set of [str, user, m, kind, sid];  n: tokens made so far              *)

Dot == <<"c", ".">>
IsDot(x) == x = Dot
Users2 == {<<>>, <<<<"c", "i">>>>, <<<<"c", "i">>, Dot>>}
UsersDots == {<<>>, <<<<"c", "i">>>>, <<<<"c", "i">>, Dot>>, <<<<"c", "i">>, Dot, <<"c", "i">>>>}
KeysSame == [m1 |-> "K", m2 |-> "K"]
KeysTwo == [m1 |-> "K", m2 |-> "L"]
One == {"m1"}
Two == {"m1", "m2"}

Image(u) == IF Coding = "image" THEN <<<<"img", u>>>> ELSE u
Sig(k, v) == <<"sig", k, v>>

Cat(v, k) == v \o <<Dot, Sig(k, v)>>
Make(m, u, j) == Cat(Image(u) \o <<Dot, <<"sid", j>>>>, KeyOf[m])

Dots(t) == {i \in DOMAIN t : IsDot(t[i])}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Split(t) ==
  LET D == Dots(t)
  IN  IF Cardinality(D) < 2 THEN [ok |-> FALSE]
      ELSE [ok |-> TRUE, id |-> SubSeq(t, 1, First(D) - 1), val |-> SubSeq(t, 1, Last(D) - 1), sig |-> SubSeq(t, Last(D) + 1, Len(t))]

Verify(m, v, sig) == sig = <<Sig(KeyOf[m], v)>>

(* What a manager says of a token.                                               *)
Accept(m, t) == LET p == Split(t) IN p.ok /\ Verify(m, p.val, p.sig)
Carried(t) == Split(t).id
----------------------------------------------------------------------------
(* The adversary                                                                 *)
Cut(t, i, j) == SubSeq(t, i, j)
Pieces == {<<>>, <<Dot>>} \cup UNION {{Cut(x.str, i, j) : i \in 1..Len(x.str), j \in 1..Len(x.str)} : x \in issued}
Fields == UNION {LET p == Split(x.str) IN {p.id, p.sig, SubSeq(p.val, Len(p.id) + 2, Len(p.val))} : x \in issued} \cup {<<>>, <<<<"c", "i">>>>}
Forged == {x.str : x \in issued} \cup {p \o q : p, q \in Pieces}
          \cup {p \o <<Dot>> \o q \o <<Dot>> \o r : p, q, r \in Fields}
----------------------------------------------------------------------------
(* The store: accepted tokens are its tokens; a string is its own symbol.        *)
C == [kind |-> "mem", max |-> 0, accL |-> 2, refL |-> 4, rejk |-> {}, mayk |-> {}, mayid |-> {}]
Tok == [t \in {x.str : x \in issued'} |-> [id |-> Split(t).id, ok |-> TRUE]]

New(m, u, j, kind) == [str |-> Make(m, u, j), user |-> u, m |-> m, kind |-> kind, sid |-> j]

Create(m, u) ==
  /\ n + 2 <= MaxIssue
  /\ LET a == New(m, u, n + 1, "a")
         r == New(m, u, n + 2, "r")
     IN  /\ issued' = issued \cup {a, r}
         /\ st' = DoCreate(C, st, a.str, r.str, Split(a.str).id, <<<<"owner", u>>>>)
  /\ n' = n + 2

(* Refresh makes the new tokens from the id the access token carries.            *)
MakeId(m, i, j) == Cat(i \o <<Dot, <<"sid", j>>>>, KeyOf[m])
OwnerOf(i) == {x.user : x \in {y \in issued : Split(y.str).id = i}}
Refresh(m, a, r) ==
  /\ n + 2 <= MaxIssue
  /\ Accept(m, a)
  /\ Check = "noverify-refresh" \/ Accept(m, r)
  /\ Check = "noid" \/ (Split(r).ok /\ Carried(a) = Carried(r))
  /\ a \in Accs(st) /\ Sess(st, a).ref = r
  /\ LET na == MakeId(m, Carried(a), n + 1)
         nr == MakeId(m, Carried(a), n + 2)
         u == Sess(st, a).data["owner"]
     IN  /\ st' = DoRefresh(C, st, a, na, nr)
         /\ issued' = issued \cup {[str |-> na, user |-> u, m |-> m, kind |-> "a", sid |-> n + 1], [str |-> nr, user |-> u, m |-> m, kind |-> "r", sid |-> n + 2]}
  /\ n' = n + 2

Destroy(m, u) == st' = DoDestroy(st, Image(u)) /\ UNCHANGED <<issued, n>>

Init == st = Empty /\ issued = {} /\ n = 0
Next == \/ \E m \in Managers, u \in Users : Create(m, u) \/ Destroy(m, u)
        \/ \E m \in Managers, a, r \in {x.str : x \in issued} : Refresh(m, a, r)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C15: a manager takes a string for authentic exactly if it was signed with its *)
(* method and key, and reads in it the id it was made for.                       *)
SignedBy(m) == {x \in issued : KeyOf[x.m] = KeyOf[m]}
OnlyAuthentic ==
  LET F == Forged
  IN  \A m \in Managers : LET A == {x.str : x \in SignedBy(m)} IN A \subseteq F /\ \A t \in F : Accept(m, t) <=> t \in A
ReadsItsId == \A x \in issued : Carried(x.str) = Image(x.user)
(* C15: no pair but two authentic tokens of one user passes the checks of Refresh. *)
PassesRefresh(m, a, r) ==
  /\ Accept(m, a) /\ (Check = "noverify-refresh" \/ Accept(m, r))
  /\ (Check = "noid" \/ (Split(r).ok /\ Carried(a) = Carried(r)))
RefreshChecks ==
  LET F == Forged
  IN  \A m \in Managers :
        LET S == SignedBy(m)
            A == {a \in {x.str : x \in issued} : Accept(m, a)}
        IN  \A a \in A, r \in F : PassesRefresh(m, a, r) => \E x, y \in S : x.str = a /\ y.str = r /\ x.user = y.user

(* C16: tokens are unique, ids a one-to-one image.                                *)
Unique == \A x, y \in issued : x.str = y.str => x = y
OneToOne == \A x, y \in issued : (Carried(x.str) = Carried(y.str)) <=> (x.user = y.user)
(* C16, C06: a session belongs to the user it was made for, and destroying a user *)
(* ends that user's sessions and nobody else's.                                    *)
Owned == \A x \in Range(st.sess) : x.id = Image(x.data["owner"])
DestroyExact ==
  [][\A u \in Users : (\E m \in Managers : Destroy(m, u)) =>
       {x \in Range(st.sess) : x.data["owner"] # u} \subseteq Range(st'.sess) /\ \A x \in Range(st'.sess) : x.data["owner"] # u]_vars
=============================================================================
