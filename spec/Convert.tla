------------------------------ MODULE Convert -------------------------------
(* Built-in conversions of convx.  A value is a record [k, neg, m, e]:                                         *)
(*   num:  (-1)^neg * (binary number m, most significant bit first) * 2^e, m without leading or trailing zeros *)
(*   inf / nan, bool: neg is the value, text: m is the UTF-8 string, bytes: m, runes: m.                       *)
EXTENDS Integers, Sequences
CONSTANTS VTypes, VTop
Start == [start |-> TRUE]
Ints == <<"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint">>
IntSet == {Ints[i] : i \in 1..10}
Floats == {"float32", "float64"}
Nums == IntSet \cup Floats
Width(t) == CASE t \in {"int8", "uint8"} -> 8 [] t \in {"int16", "uint16"} -> 16 [] t \in {"int32", "uint32"} -> 32 [] OTHER -> 64
Signed(t) == t \in {"int8", "int16", "int32", "int64", "int"}
(* numbers *)
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE Lead(_)
Lead(m) == IF m = <<>> \/ m[1] = 1 THEN m ELSE Lead(Tail(m))
RECURSIVE TrailZ(_)
TrailZ(m) == IF m[Len(m)] = 1 THEN 0 ELSE 1 + TrailZ(SubSeq(m, 1, Len(m) - 1))
Num(neg, m, e) == LET b == Lead(m) IN
  IF b = <<>> THEN [k |-> "num", neg |-> FALSE, m |-> <<>>, e |-> 0]
  ELSE LET z == TrailZ(b) IN [k |-> "num", neg |-> neg, m |-> SubSeq(b, 1, Len(b) - z), e |-> e + z]
Zero == Num(FALSE, <<>>, 0)
One == Num(FALSE, <<1>>, 0)
Bool(b) == [k |-> "bool", neg |-> b, m |-> <<>>, e |-> 0]
Seqn(k, m) == [k |-> k, neg |-> FALSE, m |-> m, e |-> 0]
Inf(neg) == [k |-> "inf", neg |-> neg, m |-> <<>>, e |-> 0]
IntBits(v) == IF v.e >= 0 THEN v.m \o Rep(0, v.e)
              ELSE IF Len(v.m) + v.e > 0 THEN SubSeq(v.m, 1, Len(v.m) + v.e) ELSE <<>>
Low(b, w) == IF Len(b) >= w THEN SubSeq(b, Len(b) - w + 1, Len(b)) ELSE Rep(0, w - Len(b)) \o b
RECURSIVE Inc(_)
Inc(b) == IF b = <<>> THEN <<1>> ELSE LET f == SubSeq(b, 1, Len(b) - 1) IN
          IF b[Len(b)] = 0 THEN Append(f, 1) ELSE Append(Inc(f), 0)
Minus(b, w) == Low(Inc([i \in 1..w |-> 1 - b[i]]), w)
Wrap(v, t) == LET w == Width(t)
                  b == IF v.neg THEN Minus(Low(IntBits(v), w), w) ELSE Low(IntBits(v), w)
              IN IF Signed(t) /\ b[1] = 1 THEN Num(TRUE, Minus(b, w), 0) ELSE Num(FALSE, b, 0)
Pow(m) == m[1] = 1 /\ \A i \in 2..Len(m) : m[i] = 0
Fits(v, t) == LET b == IntBits(v) n == Len(b) IN
              \/ b = <<>>
              \/ Signed(t) /\ (n < Width(t) \/ (n = Width(t) /\ v.neg /\ Pow(b)))
              \/ ~Signed(t) /\ ~v.neg /\ n <= Width(t)
Prec(t) == IF t = "float32" THEN 24 ELSE 53
EMin(t) == IF t = "float32" THEN 0 - 149 ELSE 0 - 1074
EMax(t) == IF t = "float32" THEN 127 ELSE 1023
(* nearest floating-point number, ties to even *)
Round(v, t) ==
  IF v.m = <<>> THEN v ELSE
  LET top == v.e + Len(v.m) - 1
      lsb == IF top - Prec(t) + 1 > EMin(t) THEN top - Prec(t) + 1 ELSE EMin(t)
      d == lsb - v.e
      n == Len(v.m)
      kept == SubSeq(v.m, 1, n - d)
      rest == SubSeq(v.m, n - d + 1, n)
      up == rest[1] = 1 /\ (Len(rest) > 1 \/ (kept # <<>> /\ kept[Len(kept)] = 1))
      r == IF d <= 0 THEN v ELSE IF d > n THEN Num(v.neg, <<>>, 0) ELSE Num(v.neg, IF up THEN Inc(kept) ELSE kept, lsb)
  IN IF r.m # <<>> /\ r.e + Len(r.m) - 1 > EMax(t) THEN Inf(v.neg) ELSE r
(* decimal digits, most significant first *)
DoubleAdd(d, b) == (IF d[1] >= 5 THEN <<1>> ELSE <<>>) \o
                   [i \in 1..Len(d) |-> ((2 * d[i]) % 10) + (IF i < Len(d) THEN (IF d[i + 1] >= 5 THEN 1 ELSE 0) ELSE b)]
RECURSIVE DecFrom(_, _, _)
DecFrom(d, b, i) == IF i > Len(b) THEN d ELSE DecFrom(DoubleAdd(d, b[i]), b, i + 1)
Dec(b) == DecFrom(<<0>>, b, 1)
Halve(d) == [i \in 1..Len(d) |-> (d[i] \div 2) + (IF i > 1 THEN 5 * (d[i - 1] % 2) ELSE 0)]
RECURSIVE Bin(_)
Bin(d) == IF \A i \in 1..Len(d) : d[i] = 0 THEN <<>> ELSE Append(Bin(Halve(d)), d[Len(d)] % 2)
IntText(v) == Seqn("text", (IF v.neg /\ v.m # <<>> THEN <<45>> ELSE <<>>) \o [i \in 1..Len(Dec(IntBits(v))) |-> 48 + Dec(IntBits(v))[i]])
Plain(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN Len(d) \in 1..40 /\ \A i \in 1..Len(d) : d[i] \in 48..57
TextInt(s) == LET neg == s[1] = 45
                  d == IF neg THEN Tail(s) ELSE s
                  v == Num(neg, Bin([i \in 1..Len(d) |-> d[i] - 48]), 0)
              IN IF v.m = <<>> THEN Zero ELSE v
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
(* UTF-8 *)
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111
RECURSIVE Utf8(_)
Utf8(r) == IF r = <<>> THEN <<>> ELSE Enc(r[1]) \o Utf8(Tail(r))
(* length of the well-formed sequence at the start of b, 0 if there is none *)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
Chars(b) == IF b[1] < 128 THEN 1
            ELSE IF b[1] \in 194..223 /\ Cont(b, 2) THEN 2
            ELSE IF b[1] \in 224..239 /\ Cont(b, 2) /\ Cont(b, 3) THEN 3
            ELSE IF b[1] \in 240..244 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) THEN 4 ELSE 0
Char(b) == CASE Chars(b) = 1 -> b[1]
             [] Chars(b) = 2 -> (b[1] - 192) * 64 + b[2] - 128
             [] Chars(b) = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
             [] Chars(b) = 4 -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128
Good(b) == Chars(b) # 0 /\ Scalar(Char(b)) /\ Enc(Char(b)) = SubSeq(b, 1, Chars(b))
RECURSIVE Runes(_)
Runes(b) == IF b = <<>> THEN <<>> ELSE <<Char(b)>> \o Runes(SubSeq(b, Chars(b) + 1, Len(b)))
RECURSIVE Valid(_)
Valid(b) == b = <<>> \/ (Good(b) /\ Valid(SubSeq(b, Chars(b) + 1, Len(b))))
(* ---- the conversions; Any where the property leaves the result open ---- *)
Any == Seqn("any", <<>>)
Small(v) == v.m = <<>> \/ (v.e >= 0 /\ v.e + Len(v.m) <= 53)
Conv(f, t, v) ==
  CASE f \in IntSet /\ t \in IntSet -> (Wrap(v, t))
    [] f \in Floats /\ t \in IntSet -> IF v.k = "num" /\ Fits(v, t) THEN (Wrap(v, t)) ELSE Any
    [] f \in Nums /\ t \in Floats -> (IF v.k = "num" THEN Round(v, t) ELSE v)
    [] f \in Nums /\ t = "bool" -> (Bool(v.k # "num" \/ v.m # <<>>))
    [] f = "bool" /\ t \in Nums -> (IF v.neg THEN One ELSE Zero)
    [] f = "bool" /\ t = "string" -> (Seqn("text", IF v.neg THEN True ELSE False))
    [] f = "string" /\ t = "bool" -> IF v.m = True THEN (Bool(TRUE)) ELSE IF v.m = False THEN (Bool(FALSE)) ELSE Any
    [] f = t -> (v)
    [] f \in IntSet /\ t = "string" -> (IntText(v))
    [] f \in Floats /\ t = "string" -> IF v.k = "num" /\ Small(v) THEN (IntText(v)) ELSE Any
    [] f = "string" /\ t \in IntSet -> IF Plain(v.m) /\ Fits(TextInt(v.m), t) THEN (TextInt(v.m)) ELSE Any
    [] f = "string" /\ t \in Floats -> IF Plain(v.m) /\ v.m[1] # 45 THEN (Round(TextInt(v.m), t)) ELSE Any
    [] f = "string" /\ t = "bytes" -> (Seqn("bytes", v.m))
    [] f = "bytes" /\ t = "string" -> (Seqn("text", v.m))
    [] f = "string" /\ t = "runes" -> IF Valid(v.m) THEN (Seqn("runes", Runes(v.m))) ELSE Any
    [] f = "runes" /\ t = "string" -> IF \A i \in 1..Len(v.m) : Scalar(v.m[i]) THEN (Seqn("text", Utf8(v.m))) ELSE Any
Pairs == (Nums \X Nums) \cup (Nums \X {"string", "bool"}) \cup ({"string", "bool"} \X Nums) \cup ({"string", "bool"} \X {"string", "bool"})
         \cup {<<"string", "bytes">>, <<"bytes", "string">>, <<"bytes", "bytes">>, <<"string", "runes">>, <<"runes", "string">>, <<"runes", "runes">>}
(* there and back: exactly the value that went in, where the type on the way can hold it *)
Trips == (Nums \X {"string"}) \cup {<<"bool", "string">>, <<"string", "bytes">>, <<"string", "runes">>, <<"bytes", "string">>, <<"runes", "string">>,
          <<"bool", "int">>, <<"bool", "float32">>, <<"bool", "uint8">>}
Back(f, w, v) == IF f = "string" /\ w = "runes" /\ ~Valid(v.m) THEN Any
                 ELSE IF f = "runes" /\ ~\A i \in 1..Len(v.m) : Scalar(v.m[i]) THEN Any ELSE v
Form(v) == IF v.k = "num" /\ v.e >= 0 THEN Bool(TRUE) ELSE Any
Out(s, r) == {[st |-> s, r |-> r]}
Do(s, o) ==
  CASE o.op = "new" -> Out([on |-> TRUE], Any)
    [] o.op = "conv" -> Out(s, Conv(o.f, o.t, o.v))
    [] o.op = "trip" -> Out(s, Back(o.f, o.t, o.v))
    \* is the text of a float nothing but digits and a sign?
    [] o.op = "form" -> Out(s, Form(o.v))
(* values tried: around zero, around the limits of every width, halves, ties *)
Near(n) == {Num(g, m, 0) : g \in {FALSE, TRUE}, m \in {<<1>> \o Rep(0, n), Rep(1, n), <<1>> \o Rep(0, n - 1) \o <<1>>, Rep(1, n) \o <<0>>}}
(* halfway between two floats of p digits, and just beside it: rounding twice goes wrong here *)
Ties(n, p) == IF n < p + 2 THEN {} ELSE {Num(g, m, 0) : g \in {FALSE, TRUE},
                m \in {<<1>> \o Rep(0, p - 1) \o <<1>> \o Rep(0, n - p - 2) \o <<x>> : x \in {0, 1}}
                      \cup {<<1>> \o Rep(0, p - 2) \o <<1, 1>> \o Rep(0, n - p - 1), <<1>> \o Rep(0, p - 2) \o <<1, 0>> \o Rep(1, n - p - 1)}}
IntVals(t) == {v \in {Zero, One, Num(TRUE, <<1>>, 0), Num(FALSE, <<1, 1>>, 0), Num(TRUE, <<1, 0, 1>>, 1)} \cup UNION {Near(n) \cup Ties(n, 24) \cup Ties(n, 53) : n \in VTop} : Fits(v, t)}
FltVals(t) == {Round(v, t) : v \in IntVals("int64") \cup IntVals("uint64")}
              \cup {Num(g, m, e) : g \in {FALSE, TRUE}, m \in {<<1>>, <<1, 1>>, <<1, 0, 1, 1>>}, e \in {0 - 1, 0 - 2, 0 - 30, 0 - 149, 20, 90, 124}}
              \cup {Inf(TRUE), Inf(FALSE)}
              \cup IF t = "float32" THEN {} ELSE {Num(FALSE, <<1>> \o Rep(0, n) \o x, e) : n \in {21, 22, 23, 24, 50}, x \in {<<1>>, <<1, 1>>}, e \in {0 - 1074, 0 - 160, 0 - 40, 0 - 10, 0, 60, 104, 105, 200, 960}}
Texts == {<<>>, <<65, 66>>, <<0, 127, 128>>, <<2047, 2048>>, <<65535, 65536, 1114111>>, <<55295, 57344, 65533>>, <<233, 97, 8364, 128512>>}
ValsOf(t) == CASE t \in IntSet -> IntVals(t) [] t \in Floats -> FltVals(t) [] t = "bool" -> {Bool(TRUE), Bool(FALSE)}
               [] t = "bytes" -> {Seqn("bytes", Utf8(x)) : x \in Texts} \cup {Seqn("bytes", <<255, 128>>)}
               [] t = "runes" -> {Seqn("runes", x) : x \in Texts}
StrVals(t) == CASE t \in IntSet -> {IntText(v) : v \in IntVals(t)}
                [] t \in Floats -> {IntText(v) : v \in {x \in IntVals("uint64") : ~x.neg}}
                [] t = "bool" -> {Seqn("text", True), Seqn("text", False)}
                [] OTHER -> {Seqn("text", Utf8(x)) : x \in Texts}
Ops(s) == IF s = Start THEN {[op |-> "new"]}
          ELSE {o \in UNION {{[op |-> "conv", f |-> p[1], t |-> p[2], v |-> v] : v \in IF p[1] = "string" THEN StrVals(p[2]) ELSE ValsOf(p[1])} : p \in {q \in Pairs : q[1] \in VTypes}}
               \cup UNION {{[op |-> "trip", f |-> p[1], t |-> p[2], v |-> v] : v \in IF p[1] = "string" THEN StrVals(p[2]) ELSE ValsOf(p[1])} : p \in {q \in Trips : q[1] \in VTypes}}
               \cup {[op |-> "form", f |-> p, t |-> "string", v |-> v] : p \in Floats \cap VTypes, v \in FltVals("float64")}
                : (IF o.op = "form" THEN (IF Round(o.v, o.f) = o.v THEN Form(o.v) ELSE Any) ELSE IF o.op = "conv" THEN Conv(o.f, o.t, o.v) ELSE Back(o.f, o.t, o.v)) # Any}
=============================================================================
