------------------------------- MODULE Deque --------------------------------
(* Double-ended queue.  PushFrontN/PushBackN push n values v, v+d, v+2d, ... one after the other; PopFrontN    *)
(* and PopBackN pop n times (their result stops at the first failure); RotF moves the front to the back n      *)
(* times, RotB the back to the front.                                                                          *)
EXTENDS Integers, Sequences
CONSTANTS DVals, DBulk, DLens
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Run(o) == [i \in 1..o.n |-> o.v + (i - 1) * o.d]
Min(a, b) == IF a < b THEN a ELSE b
Size(s, o) == CASE o.op \in {"PushFront", "PushBack"} -> Len(s.q) + 1
                [] o.op \in {"PopFront", "PopBack"} -> IF s.q = <<>> THEN 0 ELSE Len(s.q) - 1
                [] o.op \in {"PushFrontN", "PushBackN"} -> Len(s.q) + o.n
                [] o.op \in {"PopFrontN", "PopBackN"} -> Len(s.q) - Min(o.n, Len(s.q))
                [] OTHER -> Len(s.q)
AllOps == {[op |-> n] : n \in {"PopFront", "PopBack", "PeekFront", "PeekBack"}}
          \cup {[op |-> n, v |-> v] : n \in {"PushFront", "PushBack"}, v \in DVals}
          \cup {[op |-> "PushFrontN", n |-> k, v |-> 1, d |-> 0] : k \in DBulk}
          \cup {[op |-> "PushBackN", n |-> k, v |-> 2, d |-> 0] : k \in DBulk}
          \cup {[op |-> n, n |-> k] : n \in {"PopFrontN", "PopBackN"}, k \in DBulk}
Ops(s) == IF s = Start THEN {[op |-> "new"]} ELSE {o \in AllOps : Size(s, o) \in DLens}
Do(s, o) ==
  CASE o.op = "new" -> Out([q |-> <<>>], TRUE)
    [] o.op = "PushFront" -> Out([q |-> <<o.v>> \o s.q], TRUE)
    [] o.op = "PushBack" -> Out([q |-> Append(s.q, o.v)], TRUE)
    [] o.op = "PopFront" -> IF s.q = <<>> THEN Out(s, <<>>) ELSE Out([q |-> Tail(s.q)], <<Head(s.q)>>)
    [] o.op = "PopBack" -> IF s.q = <<>> THEN Out(s, <<>>) ELSE Out([q |-> SubSeq(s.q, 1, Len(s.q) - 1)], <<s.q[Len(s.q)]>>)
    [] o.op = "PeekFront" -> Out(s, IF s.q = <<>> THEN <<>> ELSE <<Head(s.q)>>)
    [] o.op = "PeekBack" -> Out(s, IF s.q = <<>> THEN <<>> ELSE <<s.q[Len(s.q)]>>)
    [] o.op = "PushFrontN" -> Out([q |-> Rev(Run(o)) \o s.q], TRUE)
    [] o.op = "PushBackN" -> Out([q |-> s.q \o Run(o)], TRUE)
    [] o.op = "PopFrontN" -> LET k == Min(o.n, Len(s.q)) IN Out([q |-> SubSeq(s.q, k + 1, Len(s.q))], SubSeq(s.q, 1, k))
    [] o.op \in {"RotF", "RotB"} ->
         IF s.q = <<>> THEN Out(s, TRUE)
         ELSE LET k == IF o.op = "RotF" THEN o.n % Len(s.q) ELSE (Len(s.q) - (o.n % Len(s.q))) % Len(s.q)
              IN Out([q |-> SubSeq(s.q, k + 1, Len(s.q)) \o SubSeq(s.q, 1, k)], TRUE)
    [] o.op = "PopBackN" -> LET k == Min(o.n, Len(s.q)) IN Out([q |-> SubSeq(s.q, 1, Len(s.q) - k)], SubSeq(Rev(s.q), 1, k))
=============================================================================
