-------------------------------- MODULE Aes ---------------------------------
(* Symbolic specification of the AES helpers.  A message is <<id, length>> (<<0, 0>> when empty), keys are      *)
(* numbers.  A stored ciphertext remembers what it was made from and what has happened to it since: the bytes    *)
(* altered (position, difference) and whether it was cut or extended.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS AModes, AKeys, ALens, AIds, AHeld, AGolden
Start == [start |-> TRUE]
Msg(i, n) == IF n = 0 THEN <<0, 0>> ELSE <<i, n>>
Nonce(mode) == IF mode = "gcm" THEN 12 ELSE 16
Tag(mode) == IF mode = "gcm" THEN 16 ELSE 0
Takes(mode, n) == mode # "cbc" \/ n % 16 = 0
Err == [k |-> "err"]
Ok == [k |-> "ok"]
Other == [k |-> "other"]
Plain(m) == [k |-> "msg", m |-> m]
Out(s, r) == {[st |-> s, r |-> r]}
New(mode, key, m) == [mode |-> mode, key |-> key, m |-> m, d |-> {}, cut |-> FALSE,
                      len |-> Nonce(mode) + m[2] + Tag(mode), own |-> Nonce(mode) + m[2] + Tag(mode)]
Modes == <<"gcm", "cbc", "ctr">>
(* ciphertexts made by earlier versions: one of each mode under key 1 *)
Golden(g) == New(Modes[g], 1, <<1, 32>>)
(* altered bytes differ by x in {1, 2, 3}; the driver maps these to three differences each the xor of the others *)
Xor(d, p, x) == IF \E e \in d : e[1] = p
                THEN LET e == CHOOSE e \in d : e[1] = p IN (d \ {e}) \cup (IF e[2] = x THEN {} ELSE {<<p, 6 - e[2] - x>>})
                ELSE d \cup {<<p, x>>}
(* lengths a helper can work with *)
Usable(mode, n) == CASE mode = "gcm" -> n >= 12 [] mode = "ctr" -> n >= 16 [] mode = "cbc" -> n >= 16 /\ n % 16 = 0
Known(s) == {s.c[i].m : i \in 1..Len(s.c)} \cup {<<0, 0>>}
Dec(s, mode, key, e) ==
  IF ~Usable(mode, e.len) THEN {Err}
  ELSE IF mode = e.mode /\ key = e.key /\ e.d = {} /\ ~e.cut /\ e.len = e.own THEN {Plain(e.m)}
  ELSE IF mode = "gcm" THEN {Err}
  ELSE IF e.len # e.own \/ e.mode # mode \/ e.m[2] < 8 THEN {Err, Other} \cup {Plain(m) : m \in Known(s)}
  ELSE {Err, Other}
Ops(s) ==
  IF s = Start THEN {[op |-> "new"]}
  ELSE (IF Len(s.c) < AHeld
        THEN {[op |-> "enc", mode |-> mo, key |-> k, m |-> Msg(i, n)] : mo \in AModes, k \in AKeys, i \in AIds, n \in ALens}
             \cup {[op |-> "golden", i |-> g] : g \in AGolden}
             \cup {[op |-> "alter", i |-> i, p |-> p, x |-> x] : i \in 1..Len(s.c), p \in {0, 11, 12, 16}, x \in {1}}
             \cup {[op |-> "cut", i |-> i, n |-> n] : i \in 1..Len(s.c), n \in {1, 16, 20, 28, 30}}
             \cup {[op |-> "extend", i |-> i, n |-> n] : i \in 1..Len(s.c), n \in {1, 16}}
             \cup {[op |-> "last", i |-> i] : i \in 1..Len(s.c)}
        ELSE {})
       \cup {[op |-> "dec", i |-> i, mode |-> mo, key |-> k] : i \in 1..Len(s.c), mo \in AModes, k \in AKeys}
Add(s, e) == [s EXCEPT !.c = Append(@, e)]
Do(s, o) ==
  CASE o.op = "new" -> Out([c |-> <<>>], Ok)
    [] o.op = "enc" -> IF ~Takes(o.mode, o.m[2]) THEN Out(s, Err)
                       ELSE LET e == New(o.mode, o.key, o.m) IN Out(Add(s, e), [k |-> "new", len |-> e.len])
    [] o.op = "encN" -> Out(s, IF Takes(o.mode, o.m[2]) THEN Ok ELSE Err)  \* the same message n times: n different ciphertexts
    [] o.op = "golden" -> Out(Add(s, Golden(o.i)), Ok)
    [] o.op = "alter" -> LET e == s.c[o.i] IN IF o.p >= e.len THEN {} ELSE Out(Add(s, [e EXCEPT !.d = Xor(@, o.p, o.x)]), Ok)
    [] o.op = "last" -> LET e == s.c[o.i] IN IF e.len = 0 THEN {} ELSE Out(Add(s, [e EXCEPT !.d = Xor(@, e.len - 1, 1)]), Ok)
    [] o.op = "cut" -> LET e == s.c[o.i] IN IF o.n > e.len THEN {} ELSE Out(Add(s, [e EXCEPT !.len = @ - o.n, !.cut = @ \/ e.len - o.n < e.own]), Ok)
    [] o.op = "extend" -> LET e == s.c[o.i] IN IF e.cut THEN {} ELSE Out(Add(s, [e EXCEPT !.len = @ + o.n]), Ok)
    [] o.op = "dec" -> {[st |-> s, r |-> r] : r \in Dec(s, o.mode, o.key, s.c[o.i])}
=============================================================================
