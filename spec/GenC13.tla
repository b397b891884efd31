------------------------------- MODULE GenC13 -------------------------------
(* C13: piecewise-linear activations are exact elementwise maps *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
Two(layer, sh, g, g2) ==     \* out of place, again on other data, then in place
  NewF("x", sh, g) \o NewF("y", sh, Const(-777)) \o <<MkA("L", layer), RunA("L", "x", "y"), FillA("x", g2), RunA("L", "x", "y"), RunA("L", "x", "x"), DelA("L")>>
Once(layer, sh, g) == NewF("x", sh, g) \o NewF("y", sh, Const(-777)) \o <<MkA("L", layer), RunA("L", "x", "y"), RunA("L", "x", "x"), DelA("L")>>
Shapes == << <<1>>, <<7>>, <<1, 1>>, <<2, 5>>, <<3, 1>>, <<1, 2, 3>>, <<2, 3, 4>>, <<1, 1, 1, 1>>, <<1, 3, 2, 5>>, <<2, 2, 3, 2>> >>
(* bounds as ordinals, lo <= hi *)
ClipBounds == {<<0, 18>>, <<-12, 12>>, <<-41, 41>>, <<-90, 90>>, <<-90, 18>>, <<0, 41>>, <<-20, -5>>, <<5, 20>>, <<12, 12>>, <<-3, 0>>, <<0, 0>>, <<-1, 1>>, <<17, 19>>, <<-40, 29>>}
(* leak as numerator, binary exponent: 1/2, 0.01f, -1/4, 2, 0, 1, 3/8, 0.2f *)
Leaks == {<<1, 1>>, <<10737418, 30>>, <<-1, 2>>, <<2, 0>>, <<0, 0>>, <<1, 0>>, <<3, 3>>, <<13421773, 26>>}
Ints == {<<-99, 99, 0>>, <<-99, -1, -20>>, <<-9, 99, 60>>, <<-99, 99, -130>>, <<-99, 99, 115>>}
LeakInts == {<<-99, 99, 0>>, <<-99, -1, -20>>, <<-9, 99, 60>>, <<-99, 99, -110>>, <<-99, 99, 115>>}
Leak(sh, l, v, s) == Once(LLeaky(l[1], l[2]), sh, HX(s, v[1], v[2], v[3]))
PRelu(sh, s, v) ==
  NewF("s", sh, HX(s + 1, -20, 20, -3)) \o NewF("x", sh, HX(s, v[1], v[2], v[3])) \o NewF("y", sh, Const(-777))
  \o <<MkA("L", LPReLU("s")), RunA("L", "x", "y"), FillA("s", HX(s + 2, -20, 20, -3)), RunA("L", "x", "y"), RunA("L", "x", "x"), DelA("L")>>
RandShape(s) == LET r == Rnd(s, 1, 1, 4) IN [i \in 1..r |-> Rnd(s, 10 + i, 1, IF r = 1 THEN 200 ELSE IF r = 2 THEN 20 ELSE 7)]
NRand == IF Tier = 0 THEN 150 ELSE 1500
Rand(k) ==
  LET s == Seed * 10007 + k * 31 sh == RandShape(s) IN
  CASE k % 5 = 0 -> Two(LIdent, sh, Pats(s), Ords(s + 1, -41, 41))
    [] k % 5 = 1 -> Two(LReLU, sh, Ords(s, -41, 41), Ords(s + 1, -41, -1))
    [] k % 5 = 2 -> Leak(sh, Choose(s, 40, <<<<1, 1>>, <<10737418, 30>>, <<3, 3>>, <<-1, 2>>, <<13421773, 26>>>>), Choose(s, 41, <<<<-99, 99, 0>>, <<-99, 99, -100>>, <<-99, 99, 100>>>>), s)
    [] k % 5 = 3 -> LET a == Rnd(s, 42, -41, 41) b == Rnd(s, 43, -41, 41) IN Two(LClip(MinOf(a, b), MaxOf(a, b), "o"), sh, Ords(s, -41, 41), Ords(s + 1, -41, 41))
    [] k % 5 = 4 -> PRelu(sh, s, Choose(s, 41, <<<<-99, 99, 0>>, <<-99, 99, -100>>, <<-99, 99, 100>>>>))
LargeShapes == << <<70000>>, <<300, 70>>, <<2, 70, 101>>, <<1, 300, 7, 5>> >>
Large(sh, j) == CASE j = 1 -> Two(LReLU, sh, Ords(Seed, -41, 41), Ords(Seed + 1, -41, -1)) [] j = 2 -> Once(LClip(0, 18, "o"), sh, Ords(Seed, -41, 41))
                  [] j = 3 -> Leak(sh, <<1, 3>>, <<-99, 99, 0>>, Seed) [] j = 4 -> PRelu(sh, Seed, <<-99, 99, 0>>) [] j = 5 -> Once(LIdent, sh, Pats(Seed))
GKeys == {<<"s", i>> : i \in 1..Len(Shapes)} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", i, j>> : i \in 1..Len(LargeShapes), j \in 1..5}
GCases(ky) ==
  CASE ky[1] = "s" ->
         LET sh == Shapes[ky[2]] s == Seed + ky[2] IN
         {Two(LIdent, sh, Pats(s), Ords(s + 1, -41, 41)), Two(LReLU, sh, Ords(s, -41, 41), Ords(s + 1, -41, -1)), Two(LReLU, sh, Const(0), H(s, -5, 5))}
         \cup {Two(LClip(b[1], b[2], "o"), sh, Ords(s + 2, -41, 41), Ords(s + 3, IF b[1] > -40 THEN b[1] - 1 ELSE -41, IF b[2] < 40 THEN b[2] + 1 ELSE 41)) : b \in ClipBounds}
         \cup {Leak(sh, l, v, s) : l \in Leaks, v \in LeakInts}
         \cup {PRelu(sh, s, v) : v \in LeakInts}
         \cup {Two(LReLU, sh, HX(s, v[1], v[2], v[3]), HX(s + 1, v[1], v[2], v[3])) : v \in Ints}
    [] ky[1] = "r" -> {Rand(ky[2])}
    [] ky[1] = "l" -> {Large(LargeShapes[ky[2]], ky[3])}
=============================================================================
