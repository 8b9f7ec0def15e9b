------------------------------ MODULE PassHash -------------------------------
(* Symbolic specification of passhashx.  Passwords are numbers.  A stored hash remembers the password and level *)
(* it was made from and what happened to it since, byte by byte.  Layout: level - 1, end of salt and end of     *)
(* digest as little-endian 64-bit numbers, 16 bytes of salt, 32 bytes of digest.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS PWords, PLevels, PHeld, PGolden, PPos
Start == [start |-> TRUE]
Err == [k |-> "err"]
Ok == [k |-> "ok"]
Out(s, r) == {[st |-> s, r |-> r]}
Header(l) == <<l - 1, 33, 0, 0, 0, 0, 0, 0, 0, 65, 0, 0, 0, 0, 0, 0, 0>>
New(p, l) == [pw |-> p, lvl |-> l, d |-> {}, len |-> 65, bad |-> FALSE, ext |-> FALSE]
(* hashes made by earlier versions, of password 1 at each level *)
Golden(g) == New(1, g)
Xor(d, p, x) == IF \E e \in d : e[1] = p
                THEN LET e == CHOOSE e \in d : e[1] = p IN (d \ {e}) \cup (IF e[2] = x THEN {} ELSE {<<p, 6 - e[2] - x>>})
                ELSE d \cup {<<p, x>>}
Verify(e, p) == IF e.bad \/ (\E y \in e.d : y[1] < 65) \/ e.pw # p THEN {Err} ELSE IF e.ext THEN {Ok, Err} ELSE {Ok}
Ops(s) ==
  IF s = Start THEN {[op |-> "new"]}
  ELSE (IF Len(s.h) < PHeld
        THEN {[op |-> "hash", p |-> p, l |-> l, f |-> f] : p \in PWords, l \in PLevels, f \in {"raw", "base64"}}
             \cup {[op |-> "golden", i |-> g] : g \in PGolden}
             \cup {[op |-> "alter", i |-> i, p |-> p, x |-> 1] : i \in 1..Len(s.h), p \in PPos}
             \cup {[op |-> "cut", i |-> i, n |-> n] : i \in 1..Len(s.h), n \in {1, 32, 48, 49, 65}}
             \cup {[op |-> "extend", i |-> i, n |-> 1] : i \in 1..Len(s.h)}
        ELSE {})
       \cup {[op |-> "verify", i |-> i, p |-> p, f |-> f] : i \in 1..Len(s.h), p \in PWords, f \in {"raw", "base64"}}
Add(s, e) == [s EXCEPT !.h = Append(@, e)]
Do(s, o) ==
  CASE o.op = "new" -> Out([h |-> <<>>], Ok)
    [] o.op = "hash" -> IF o.l \notin 1..4 THEN Out(s, Err) ELSE Out(Add(s, New(o.p, o.l)), [k |-> "hash", head |-> Header(o.l), len |-> 65])
    [] o.op = "golden" -> Out(Add(s, Golden(o.i)), Ok)
    [] o.op = "alter" -> LET e == s.h[o.i] IN IF o.p >= e.len THEN {} ELSE Out(Add(s, [e EXCEPT !.d = Xor(@, o.p, o.x)]), Ok)
    [] o.op = "cut" -> LET e == s.h[o.i] IN IF o.n > e.len \/ e.ext THEN {} ELSE Out(Add(s, [e EXCEPT !.len = @ - o.n, !.bad = TRUE]), Ok)
    [] o.op = "extend" -> LET e == s.h[o.i] IN IF e.bad THEN {} ELSE Out(Add(s, [e EXCEPT !.len = @ + o.n, !.ext = TRUE]), Ok)
    (* an end set to an arbitrary number other than its own, bytes at random, text that is not base64 *)
    [] o.op \in {"ends", "junk", "text"} -> Out(Add(s, [New(0, 1) EXCEPT !.bad = TRUE, !.len = 0]), Ok)
    [] o.op = "verify" -> {[st |-> s, r |-> r] : r \in Verify(s.h[o.i], o.p)}
=============================================================================
