------------------------------- MODULE GenC14 -------------------------------
(* C14: sigmoid, tanh, softmax are accurate and finite *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
Act(layer, sh, gens) ==
  <<New("x", sh)>> \o NewF("y", sh, Const(-777)) \o <<MkA("L", layer)>>
  \o FlattenSeq([i \in 1..Len(gens) |-> <<FillA("x", gens[i]), RunA("L", "x", "y")>>]) \o <<DelA("L")>>
LSq(p) == [k |-> "sq", p |-> p, m |-> "l", x |-> 0]
PickG(s, p, m) == [k |-> "pick", s |-> s, p |-> p, m |-> m, x |-> 0]
(* lattice points: fine within +-39/4 ln 2, whole powers beyond *)
Coarse == [i \in 1..401 |-> (i - 201) * 4]
Fine == [i \in 1..79 |-> i - 40]
FineT == [i \in 1..39 |-> i - 20]
CoarseT == [i \in 1..401 |-> (i - 201) * 2]
BigOrds == <<21, 22, 23, 24, 25, 26, 29, 32, 33, 36, 39, 40, 41, -21, -22, -23, -24, -25, -26, -29, -32, -36, -41>>
FarOrds == <<24, 25, 26, 27, 29, 30, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, -24, -25, -26, -27, -29, -30, -32, -34, -36, -38, -40, -41>>
Offs == {0, 40, -40, 88, -88, 200, -200, 1000, -1000, 11400, -11400, 30000, -30000}
Small(s, x, m) == HX(s, 0 - m, m, x)
Shapes == << <<1>>, <<5>>, <<1, 1>>, <<1, 7>>, <<3, 2>>, <<1, 2, 3>>, <<2, 2, 2>>, <<1, 1, 1, 4>>, <<1, 3, 2, 2>>, <<2, 2, 1, 2>> >>
RandShape(s) == LET r == Rnd(s, 1, 1, 4) IN [i \in 1..r |-> Rnd(s, 10 + i, 1, IF r = 1 THEN 40 ELSE IF r = 2 THEN 7 ELSE 3)]
NRand == IF Tier = 0 THEN 150 ELSE 1500
SigGens(s) == <<PickG(s, Fine, "l"), PickG(s + 1, Coarse, "l"), Small(s, -20, 2000), PickG(s + 2, BigOrds, "o"), PickG(s + 3, <<-4, 0, 4, 1, -1>>, "l")>>
TanGens(s) == <<Small(s + 6, -9, 16), PickG(s, FineT, "l"), PickG(s + 1, CoarseT, "l"), Small(s, -13, 4), Small(s, -60, 90), Small(s, -120, 90), PickG(s + 2, BigOrds, "o")>>
(* softmax: every offset, and differences up to hi/4 ln 2 *)
SoftGens(s, off) == <<Latt(s, -12, 12, off), Latt(s + 1, -120, 0, off), Latt(s + 2, 0, 3, off), Latt(s + 4, -400, 20, off)>>
Rand(k) ==
  LET s == Seed * 10007 + k * 31 sh == RandShape(s) IN
  CASE k % 3 = 0 -> Act(LSigmoid, sh, SigGens(s)) [] k % 3 = 1 -> Act(LTanh, sh, TanGens(s))
    [] k % 3 = 2 -> Act(LSoftmax, sh, SoftGens(s, Rnd(s, 50, -300, 300)) \o <<PickG(s, FarOrds, "o")>>)
Large(j) == CASE j = 1 -> Act(LSigmoid, <<1, 3, 30, 40>>, SigGens(Seed)) [] j = 2 -> Act(LTanh, <<3, 1501>>, TanGens(Seed))
              [] j = 3 -> Act(LSoftmax, <<1, 1000>>, <<Latt(Seed, -8, 8, 0), Latt(Seed, -4, 4, 20000), PickG(Seed, FarOrds, "o"), Const(0), Latt(Seed, -80, 0, -90)>>)
              [] j = 4 -> Act(LSoftmax, <<2, 2, 300>>, <<Latt(Seed, -3, 3, 7), Latt(Seed, -12, 12, -7), LSq([i \in 1..1200 |-> IF i = 1200 THEN 160 ELSE 0])>>)
              [] j = 5 -> Act(LSigmoid, <<70000>>, <<PickG(Seed, Fine, "l"), PickG(Seed, Coarse, "l")>>)
              [] j = 6 -> Act(LSoftmax, <<70000>>, <<LSq([i \in 1..70000 |-> IF i = 69990 THEN 7 ELSE (4 * (i % 3)) - 48]), LSq([i \in 1..70000 |-> IF i = 3 THEN 0 - 50 ELSE (4 * (i % 5)) - 108]),
                     [k |-> "sq", p |-> [i \in 1..70000 |-> IF i = 69991 THEN 39 ELSE IF i % 2 = 0 THEN -30 ELSE 24], m |-> "o", x |-> 0]>>) [] j = 7 -> Act(LTanh, <<1, 1, 260, 270>>, <<PickG(Seed, FineT, "l")>>)
GKeys == {<<"s", i>> : i \in 1..Len(Shapes)} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", j>> : j \in 1..7} \cup {<<"all">>}
GCases(ky) ==
  CASE ky[1] = "s" -> LET sh == Shapes[ky[2]] IN
         {Act(LSigmoid, sh, SigGens(Seed + i)) : i \in 1..4} \cup {Act(LTanh, sh, TanGens(Seed + i)) : i \in 1..4}
         \cup {Act(LSoftmax, sh, SoftGens(Seed + i, o)) : i \in 1..2, o \in Offs}
         \cup {Act(LSoftmax, sh, <<PickG(Seed + i, FarOrds, "o"), PickG(Seed + i + 5, <<41, -41>>, "o"), Const(0), Const(9999999), Const(-9999999)>>) : i \in 1..4}
    [] ky[1] = "all" -> {Act(LSigmoid, <<79>>, <<LSq(Fine)>>), Act(LSigmoid, <<401>>, <<LSq(Coarse)>>), Act(LTanh, <<39>>, <<LSq(FineT)>>), Act(LTanh, <<401>>, <<LSq(CoarseT)>>)}
    [] ky[1] = "r" -> {Rand(ky[2])}
    [] ky[1] = "l" -> {Large(ky[2])}
=============================================================================
