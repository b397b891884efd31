------------------------------- MODULE GenC10 -------------------------------
(* C10: global pooling reduces exactly one channel each *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
Run2(sh, gens) ==
  LET osh == GlobalShape(Zeros(sh)) IN
  <<New("x", sh)>> \o NewF("y", osh, Const(-31313)) \o NewF("z", osh, Const(31313))
  \o <<MkA("M", LGMax), MkA("A", LGAvg)>>
  \o FlattenSeq([i \in 1..Len(gens) |-> <<FillA("x", gens[i]), RunA("M", "x", "y")>> \o (IF gens[i].m = "i" THEN <<RunA("A", "x", "z")>> ELSE <<>>)])
(* the extreme element at every position *)
PosGens(sh, c) == LET n == Prod(sh) k == MinOf(8, n - 8 * c) IN FlattenSeq([p \in 1..k |-> <<One(8 * c + p, 50, -7), One(8 * c + p, -3, -40)>>])
Shapes == {<<b, c, w>> : b \in 1..2, c \in 1..3, w \in 1..5} \cup {<<b, c, h, w>> : b \in 1..2, c \in 1..2, h \in 1..4, w \in 1..4}
NRand == IF Tier = 0 THEN 150 ELSE 2000
RandCase(i) ==
  LET s == Seed * 10007 + (i * 29)
      sh == IF i % 3 = 0 THEN <<Rnd(s, 1, 1, 4), Rnd(s, 2, 1, 9), Rnd(s, 3, 1, 40)>> ELSE <<Rnd(s, 1, 1, 3), Rnd(s, 2, 1, 9), Rnd(s, 3, 1, 15), Rnd(s, 4, 1, 15)>>
      n == Prod(sh)
  IN Run2(sh, <<H(s, -300, 300), H(s, -300, -1), Ords(s, -41, -1), Ords(s, -41, 41), HX(s, -60, 60, -100), HX(s, -60, 60, 80), Ids(0), Rev(0), One(Rnd(s, 9, 1, n), -1, -9999), H(s, 0, 1)>>)
LargeShapes == << <<1, 70, 7, 7>>, <<1, 1, 300, 70>>, <<1, 2, 70, 300>>, <<2, 2, 5000>>, <<1, 300, 3>>, <<70, 2, 2, 2>>, <<70, 3, 3>>, <<1, 1, 70000>>, <<1, 260, 1, 1>>, <<2, 2, 130, 140>>, <<2, 2, 17001>>, <<1, 1, 260, 270>> >>
GKeys == {<<"p", sh>> : sh \in Shapes} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..Len(LargeShapes)}
GCases(ky) ==
  CASE ky[1] = "p" -> {Run2(ky[2], PosGens(ky[2], c)) : c \in 0..((Prod(ky[2]) - 1) \div 8)}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> {Run2(LargeShapes[ky[2]], <<H(Seed, -9, 9), Ords(Seed, -41, -1), H(Seed + 1, -20, -1)>>)}
=============================================================================
