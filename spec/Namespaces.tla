----------------------------- MODULE Namespaces -----------------------------
(* How redis providers find the sessions of a user id among the keys of a shared  *)
(* server: KEYS <escaped prefix and id>.* , as the server matches glob patterns.    *)
(* Checked for every pair of ids up to a length over an alphabet of the characters  *)
(* that mean something in patterns, and every unrelated key made of them.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Chars, Len1, Mistake     \* ""; "plain": no escaping; "nodot": the pattern lacks the dot; "noclass": brackets not escaped
VARIABLES i, j
vars == <<i, j>>

Strs(n) == UNION {[1..m -> Chars] : m \in 0..n}
Special == {"*", "?", "[", "]", "\\"} \cup {"^"}
Escaped == CASE Mistake = "plain" -> {} [] Mistake = "noclass" -> {"*", "?", "\\"} [] OTHER -> {"*", "?", "[", "\\"}
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in Escaped THEN <<"\\", Head(s)>> ELSE <<Head(s)>>) \o Escape(Tail(s))

(* The server's pattern matching (stringmatchlen), ranges left out.                   *)
RECURSIVE Match(_, _), Class(_, _, _)
(* the class at the head of p (after "[" and "^"): <<does c belong to it, rest of p>> *)
Class(p, c, hit) ==
  IF p = <<>> THEN <<hit, <<>>>>
  ELSE IF Head(p) = "\\" /\ Len(p) >= 2 THEN Class(SubSeq(p, 3, Len(p)), c, hit \/ p[2] = c)
  ELSE IF Head(p) = "]" THEN <<hit, Tail(p)>>
  ELSE Class(Tail(p), c, hit \/ Head(p) = c)
Match(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE CASE Head(p) = "*" -> Match(Tail(p), s) \/ (s # <<>> /\ Match(p, Tail(s)))
         [] Head(p) = "?" -> s # <<>> /\ Match(Tail(p), Tail(s))
         [] Head(p) = "[" ->
              /\ s # <<>>
              /\ LET not == Len(p) > 1 /\ p[2] = "^"
                     r == Class(IF not THEN SubSeq(p, 3, Len(p)) ELSE Tail(p), Head(s), FALSE)
                 IN  (r[1] # not) /\ Match(r[2], Tail(s))
         [] Head(p) = "\\" /\ Len(p) >= 2 -> s # <<>> /\ Head(s) = p[2] /\ Match(SubSeq(p, 3, Len(p)), Tail(s))
         [] OTHER -> s # <<>> /\ Head(s) = Head(p) /\ Match(Tail(p), Tail(s))

Prefixes == {<<"p", ".">>, <<"q">>, <<"*">>, <<"p", ":">>}
Key(pre, id, rest) == pre \o id \o <<".">> \o rest
Pattern(pre, id) == Escape(pre \o id) \o (IF Mistake = "nodot" THEN <<"*">> ELSE <<".", "*">>)
Rests == {<<"s", ".", "t">>, <<"*", ".", "]">>}

Init == i \in Strs(Len1) /\ j \in Strs(Len1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C06: the sessions of exactly that id. *)
OwnOnly == \A pre \in Prefixes, r \in Rests : Match(Pattern(pre, i), Key(pre, j, r)) <=> i = j
(* C20: nothing under another prefix, neither being a beginning of the other, nor other data. *)
Begins(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Apart == \A pre, qre \in Prefixes, r \in Rests : (~Begins(pre, qre) /\ ~Begins(qre, pre)) => ~Match(Pattern(pre, i), Key(qre, j, r))
Unrelated == \A pre \in Prefixes : ~Begins(pre, j) => ~Match(Pattern(pre, i), j)
=============================================================================
