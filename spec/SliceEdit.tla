----------------------------- MODULE SliceEdit ------------------------------
(* slicex.Slice: two handles h = 1, 2 (the second made by Copy) and the pieces p of the last Split or Batch.    *)
(* Every result is [r |-> what was returned, a |-> contents of the handles, ok |-> every slice ever passed in   *)
(* (and the memory behind it) still as it was].  An integer of plus or minus Big stands for the largest and     *)
(* smallest one.  The pieces are only tracked until a handle changes.                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS EVals, EMax, EHandles, EEdit, ERearr
Big == 1000000
Start == [start |-> TRUE]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clamp(i, n) == Max(0, Min(i, n))
Cut3(q, i, j, v) == SubSeq(q, 1, i) \o v \o SubSeq(q, j + 1, Len(q))
Splice(q, a, b, v) == LET i == Clamp(a, Len(q)) j == Clamp(b, Len(q)) IN Cut3(q, Min(i, j), Max(i, j), v)
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Pow2Mod(_, _)
Pow2Mod(e, n) == IF e = 0 THEN 1 % n ELSE (2 * Pow2Mod(e - 1, n)) % n
Residue(k, n) == IF k = Big THEN (Pow2Mod(63, n) - 1) % n ELSE IF k = -Big THEN (-Pow2Mod(63, n)) % n ELSE k % n
Rotated(q, k) == IF q = <<>> THEN q ELSE LET d == Residue(k, Len(q)) IN [i \in 1..Len(q) |-> q[((i - 1 + d) % Len(q)) + 1]]
Count(q, v) == Len(SelectSeq(q, LAMBDA x : x = v))
SameElements(q, r) == Len(q) = Len(r) /\ \A i \in 1..Len(q) : Count(q, q[i]) = Count(r, q[i])
(* Predicates: "below" and a threshold, "mod" and a remainder; Filter asks once per element, in order, so a     *)
(* predicate with a memory such as "fresh" (not asked about that value before) works as well.                  *)
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN q ELSE LET r == Uniq(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)]
                                   IN IF \E i \in 1..(Len(q) - 1) : q[i] = x THEN r ELSE Append(r, x)
Holds(o, x) == IF o.pred = "below" THEN x < o.x ELSE x % 2 = o.x
Repeated(q, n) == IF q = <<>> THEN q ELSE [i \in 1..(Len(q) * n) |-> q[((i - 1) % Len(q)) + 1]]
RECURSIVE Split(_, _, _, _)
Split(q, end, sizes, i) ==
  IF i > Len(sizes) THEN IF end < Len(q) THEN <<SubSeq(q, end + 1, Len(q))>> ELSE <<>>
  ELSE LET n == Clamp(end + sizes[i], Len(q)) IN <<SubSeq(q, Min(end, n) + 1, Max(end, n))>> \o Split(q, n, sizes, i + 1)
Batch(q, n) == [k \in 1..((Len(q) + n - 1) \div n) |-> SubSeq(q, (k - 1) * n + 1, Min(k * n, Len(q)))]
First(q, o) == IF \E i \in 1..Len(q) : Holds(o, q[i])
               THEN (CHOOSE i \in 1..Len(q) : Holds(o, q[i]) /\ \A j \in 1..(i - 1) : ~Holds(o, q[j])) - 1 ELSE -1
(* JoinText joins the texts that the numbers stand for. *)
Text(x) == <<"", "a", ", ", "%v">>[(x % 4) + 1]
(* JoinAny joins values of many types as fmt prints them. *)
AnyText(x) == <<"<nil>", "named", "failure", "<nil>", "true", "1.5", "[1 2]", "{1 x}">>[(x % 8) + 1]
RECURSIVE Joined(_, _, _, _)
Joined(q, sep, i, txt) == IF i > Len(q) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o (CASE txt = "JoinText" -> Text(q[i]) [] txt = "JoinAny" -> AnyText(q[i]) [] txt = "Join" -> ToString(q[i])) \o Joined(q, sep, i + 1, txt)

(* Outcomes: a new content of the handle, a result, new pieces. *)
Give(s, r) == {[st |-> s, r |-> [r |-> r, a |-> s.a, ok |-> TRUE]]}
New(s, h, q, r) == LET t == [a |-> [s.a EXCEPT ![h] = q], p |-> <<>>] IN Give(t, r)
Pieces(s, p) == LET t == [s EXCEPT !.p = p] IN Give(t, p)

Perms(q) == LET n == Len(q) IN {[i \in 1..n |-> q[f[i]]] : f \in {g \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => g[x] # g[y]}}

IdxOf(s, h) == (-1..Len(s.a[h]) + 1) \cup {Big, -Big}
Lists == {<<>>} \cup {<<v>> : v \in EVals} \cup {<<2, 1>>}
Preds == {[pred |-> "below", x |-> 1], [pred |-> "mod", x |-> 0]}
Fits(s, h, n) == Len(s.a[h]) + n <= EMax
Edits(s, h) ==
  LET I == IdxOf(s, h) q == s.a[h] IN
  {[op |-> "Set", h |-> h, i |-> i, v |-> v] : i \in I, v \in EVals}
  \cup {[op |-> n, h |-> h, i |-> i] : n \in {"Get", "Delete", "DeleteReplace"}, i \in I}
  \cup {[op |-> n, h |-> h, i |-> i, j |-> j] : n \in {"Slice", "Cut"}, i \in I, j \in I \cup {-2}}
  \cup {o \in {[op |-> "Splice", h |-> h, i |-> i, j |-> j, vs |-> v] : i \in I, j \in I, v \in Lists} : Len(Splice(q, o.i, o.j, o.vs)) <= EMax}
  \cup {o \in {[op |-> "Expand", h |-> h, i |-> i, vs |-> v] : i \in I, v \in Lists} : Fits(s, h, Len(o.vs))}
  \cup (IF Fits(s, h, 1) THEN {[op |-> "Insert", h |-> h, i |-> i, v |-> v] : i \in I, v \in EVals}
                              \cup {[op |-> n, h |-> h, v |-> v] : n \in {"Push", "UnShift"}, v \in EVals} ELSE {})
  \cup {[op |-> n, h |-> h] : n \in {"Pop", "Shift", "Clear"}}
  \cup {o \in {[op |-> "Extend", h |-> h, i |-> i] : i \in {-Big, -1, 0, 1, 2}} : Fits(s, h, Max(0, o.i))}
Rearr(s, h) ==
  LET q == s.a[h] IN
  {[op |-> n, h |-> h] : n \in {"Reverse", "Len", "Finalize", "Each", "ForEach"} \cup (IF Len(q) <= 4 THEN {"Shuffle"} ELSE {})}
  \cup {[op |-> "Rotate", h |-> h, i |-> i] : i \in (-(Len(q) + 1)..(Len(q) + 1)) \cup {Big, -Big}}
  \cup {[op |-> n, h |-> h, pred |-> p.pred, x |-> p.x] : n \in {"Filter", "IndexOf", "Contains"}, p \in Preds}
  \cup {[op |-> "Filter", h |-> h, pred |-> "fresh", x |-> 0]}
  \cup {o \in {[op |-> "Repeat", h |-> h, i |-> i] : i \in 0..2} : Len(q) * o.i <= EMax}
  \cup {[op |-> "Split", h |-> h, vs |-> v] : v \in {<<>>, <<1>>, <<0, 1>>, <<1, 1>>, <<1, Big>>, <<2, 0, 1>>, <<Big, 1>>, <<2>>}}
  \cup {[op |-> "Batch", h |-> h, i |-> i] : i \in {-Big, 0, 1, 2, 3, Big}}
  \cup {[op |-> n, h |-> h, sep |-> x] : n \in {"Join", "JoinText", "JoinAny"}, x \in {"", ", "}}
  \cup {[op |-> "PieceRotate", i |-> i, n |-> n] : i \in 1..Len(s.p), n \in {1, -1}}
  \cup (IF \E j \in 1..Len(s.p) : Count(s.p[j], 7) > 0 THEN {} ELSE {[op |-> "PiecePush", i |-> i, v |-> 7] : i \in 1..Len(s.p)})
Ops(s) ==
  IF s = Start THEN {[op |-> "new", vs |-> v] : v \in Lists}
  ELSE UNION {(IF EEdit THEN Edits(s, h) ELSE {[op |-> "Push", h |-> h, v |-> v] : v \in IF Fits(s, h, 1) THEN EVals ELSE {}} \cup {[op |-> "Pop", h |-> h]})
              \cup (IF ERearr THEN Rearr(s, h) ELSE {})
              \cup (IF EHandles = 2 THEN {[op |-> "Copy", h |-> h]} ELSE {}) : h \in 1..EHandles}
Do(s, o) ==
  IF o.op = "new" THEN LET t == [a |-> <<o.vs, <<>>>>, p |-> <<>>] IN Give(t, <<>>)
  ELSE IF o.op = "PiecePush" THEN Pieces(s, [s.p EXCEPT ![o.i] = Append(@, o.v)])
  ELSE IF o.op = "PieceRotate"
  THEN LET p == [s.p EXCEPT ![o.i] = Rotated(@, o.n)]
       IN {[st |-> [s EXCEPT !.p = p], r |-> [r |-> p, a |-> <<>>, ok |-> TRUE]]}  \* the handle may share the pieces' memory
  ELSE LET h == o.h q == s.a[h] n == Len(q) IN
  CASE o.op = "Copy" -> New(s, 3 - h, q, <<>>)
    [] o.op = "Set" -> New(s, h, IF n = 0 THEN q ELSE [q EXCEPT ![Clamp(o.i, n - 1) + 1] = o.v], <<>>)
    [] o.op = "Get" -> Give(s, IF n = 0 THEN 0 ELSE q[Clamp(o.i, n - 1) + 1])
    [] o.op = "Slice" -> LET i == Clamp(o.i, n) j == Clamp(IF o.j < 0 THEN n + o.j ELSE o.j, n)
                         IN New(s, h, SubSeq(q, Min(i, j) + 1, Max(i, j)), <<>>)
    [] o.op = "Splice" -> New(s, h, Splice(q, o.i, o.j, o.vs), <<>>)
    [] o.op = "Expand" -> New(s, h, Splice(q, o.i, o.i, o.vs), <<>>)
    [] o.op = "Insert" -> New(s, h, Splice(q, o.i, o.i, <<o.v>>), <<>>)
    [] o.op = "Cut" -> New(s, h, Splice(q, o.i, o.j, <<>>), <<>>)
    [] o.op = "Delete" -> New(s, h, IF 0 <= o.i /\ o.i < n THEN Cut3(q, o.i, o.i + 1, <<>>) ELSE q, <<>>)
    [] o.op = "DeleteReplace" -> New(s, h, IF n = 0 THEN q ELSE SubSeq([q EXCEPT ![Clamp(o.i, n - 1) + 1] = q[n]], 1, n - 1), <<>>)
    [] o.op = "Push" -> New(s, h, Append(q, o.v), <<>>)
    [] o.op = "UnShift" -> New(s, h, <<o.v>> \o q, <<>>)
    [] o.op = "Pop" -> New(s, h, IF n = 0 THEN q ELSE SubSeq(q, 1, n - 1), IF n = 0 THEN 0 ELSE q[n])
    [] o.op = "Shift" -> New(s, h, IF n = 0 THEN q ELSE Tail(q), IF n = 0 THEN 0 ELSE q[1])
    [] o.op = "PushN" -> New(s, h, q \o [i \in 1..o.n |-> o.v + i - 1], <<>>)
    [] o.op = "PopN" -> LET k == Min(o.n, n) IN New(s, h, SubSeq(q, 1, n - k), [i \in 1..k |-> q[n + 1 - i]])
    [] o.op = "ShiftN" -> LET k == Min(o.n, n) IN New(s, h, SubSeq(q, k + 1, n), SubSeq(q, 1, k))
    [] o.op = "Clear" -> New(s, h, <<>>, <<>>)
    [] o.op = "Extend" -> New(s, h, q \o [i \in 1..Max(0, o.i) |-> 0], <<>>)
    [] o.op = "Reverse" -> New(s, h, Reversed(q), <<>>)
    [] o.op = "Rotate" -> New(s, h, Rotated(q, o.i), <<>>)
    [] o.op = "Shuffle" -> UNION {New(s, h, x, <<>>) : x \in Perms(q)}
    [] o.op = "Filter" -> New(s, h, IF o.pred = "fresh" THEN Uniq(q) ELSE SelectSeq(q, LAMBDA x : Holds(o, x)), <<>>)
    [] o.op = "Repeat" -> New(s, h, Repeated(q, o.i), <<>>)
    [] o.op = "Split" -> Pieces(s, Split(q, 0, o.vs, 1))
    [] o.op = "Batch" -> Pieces(s, Batch(q, IF o.i <= 0 THEN 1 ELSE o.i))
    [] o.op \in {"Join", "JoinText", "JoinAny"} -> Give(s, Joined(q, o.sep, 1, o.op))
    [] o.op = "IndexOf" -> Give(s, First(q, o))
    [] o.op = "Contains" -> Give(s, \E i \in 1..n : Holds(o, q[i]))
    [] o.op \in {"Each", "Finalize"} -> Give(s, q)
    [] o.op = "ForEach" -> Give(s, [i \in 1..n |-> <<i - 1, q[i]>>])
    [] o.op = "Len" -> Give(s, n)
=============================================================================
