------------------------------- MODULE GenC03 -------------------------------
(* C03: copy, addition, channel addition, scaling: elementwise, framed, aliasing *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

Shapes == {<<a>> : a \in {1, 2, 5}} \cup {<<a, b>> : a \in 1..2, b \in 1..3} \cup {<<a, b, c>> : a \in 1..2, b \in 1..2, c \in {1, 3}}
          \cup {<<a, b, c, d>> : a \in 1..2, b \in 1..2, c \in 1..2, d \in 1..3}
SameNumel(sh) == {t \in Shapes : Prod(t) = Prod(sh)}

Bits(sh, s) == NewF("x", sh, Pats(s))
CopyS(sh, sh2, s) == Bits(sh, s) \o NewF("y", sh2, Pats(s + 1)) \o NewF("by", sh, Pats(s + 2))
                     \o <<CopyA("x", "y"), CopyA("y", "by"), CopyA("x", "x"), FillA("x", Ords(s + 3, -41, 41)), CopyA("x", "y")>>
Factors == << <<0, 0>>, <<1, 0>>, <<-1, 0>>, <<3, 1>>, <<-5, 2>>, <<1, 7>>, <<100, 0>> >>
ArithS(sh, s) ==
  NewF("x", sh, H(s, -99, 99)) \o NewF("y", sh, H(s + 1, -99, 99)) \o NewF("z", sh, Const(-777))
  \o <<AddA("x", "y"), AddA("y", "y"), MulA("x", "z", Factors[1 + (s % 7)][1], Factors[1 + (s % 7)][2]),
       MulA("x", "x", Factors[1 + ((s + 1) % 7)][1], Factors[1 + ((s + 1) % 7)][2])>>
ScaleS(sh, s, x) == NewF("x", sh, HX(s, -99, 99, x)) \o NewF("y", sh, HX(s + 1, -99, 99, x)) \o NewF("z", sh, Const(5))
                    \o <<AddA("x", "y"), MulA("x", "z", 3, 0), AddA("x", "x")>>
ChanS(sh, s) ==
  LET n == N4(sh) IN
  NewF("x", sh, H(s, -99, 99)) \o NewF("y", sh, H(s + 1, -99, 99)) \o NewF("x2", sh, H(s + 2, -99, 99))
  \o FlattenSeq([k \in 1..(n[1] * n[2]) |-> <<AddChA("x", "y", (k - 1) \div n[2], (k - 1) % n[2])>>])
  \o <<AddChA("x", "x", n[1] - 1, n[2] - 1), AddChA("x2", "y", 0, n[2] - 1), AddChA("x2", "y", n[1] - 1, 0)>>

NRand == IF Tier = 0 THEN 120 ELSE 1200
RDim(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 5 THEN Rnd(s, i + 50, 1, 5) ELSE IF r < 8 THEN Rnd(s, i + 50, 5, 12) ELSE Rnd(s, i + 50, 12, 21)
RandCase(k) ==
  LET s == Seed * 10007 + k
      r == IF k % 5 = 0 THEN 1 + (k % 4) ELSE 2 + (k % 3)
      sh == [i \in 1..r |-> IF r >= 3 /\ i <= 2 THEN Rnd(s, i, 1, 5) ELSE RDim(s, i)]
  IN CASE k % 4 = 0 -> CopyS(sh, <<Prod(sh)>>, s)
       [] k % 4 = 1 -> ArithS(sh, s)
       [] k % 4 = 2 -> ScaleS(sh, s, Choose(s, 30, <<-140, -120, -60, 10, 60, 100, 110>>))
       [] k % 4 = 3 -> IF r = 1 THEN ArithS(sh, s) ELSE ChanS(sh, s)
LargeShapes == << <<70001>>, <<3, 3000>>, <<300, 300>>, <<2, 3, 2001>>, <<1, 70, 5, 6>>, <<2, 2, 90, 100>>, <<70, 2, 2, 2>>, <<20, 19, 3>>, <<2, 2, 130, 140>>, <<2, 3, 12001>>, <<1, 1, 260, 270>> >>
LargeCase(k, j) == LET sh == LargeShapes[k] IN
   CASE j = 1 -> CopyS(sh, <<1, Prod(sh)>>, Seed + k)
     [] j = 2 -> ArithS(sh, Seed + k)
     [] j = 3 -> LET n == N4(sh) IN NewF("x", sh, H(k, -99, 99)) \o NewF("y", sh, H(k + 1, -99, 99))
                   \o <<AddChA("x", "y", n[1] - 1, n[2] - 1), AddChA("y", "x", 0, n[2] - 1), AddChA("x", "x", n[1] - 1, 0)>>

GKeys == {<<"c", sh>> : sh \in Shapes} \cup {<<"a", sh>> : sh \in Shapes} \cup {<<"r", k>> : k \in 1..NRand}
         \cup {<<"l", k, j>> : k \in 1..Len(LargeShapes), j \in 1..3}
GCases(ky) ==
  CASE ky[1] = "c" -> {CopyS(ky[2], t, Seed) : t \in SameNumel(ky[2])}
    [] ky[1] = "a" -> {ArithS(ky[2], Seed + i) : i \in 1..7} \cup {ScaleS(ky[2], Seed, x) : x \in {-140, -20, 100}}
                      \cup (IF Len(ky[2]) = 1 THEN {} ELSE {ChanS(ky[2], Seed + i) : i \in 1..2})
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> IF ky[3] = 3 /\ Len(LargeShapes[ky[2]]) = 1 THEN {} ELSE {LargeCase(ky[2], ky[3])}
=============================================================================
