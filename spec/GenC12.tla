------------------------------- MODULE GenC12 -------------------------------
(* C12: batch normalisation with each channel's own parameters *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
(* epsilon = 4^-sx, standard deviation of channel c = std[c] / 2^sx, variance = (std[c]^2 - 1) / 4^sx *)
(* (en = 1; with en = 0 there is no epsilon) *)
ScenE(sh, sx, s, inplace, en) ==
  LET c == N4(sh)[2]
      lo == IF sx <= 2 THEN 1 ELSE Pow2(sx - 2)
      std == [i \in 1..c |-> Rnd(s + 5, i, lo, lo + 3 * Pow2(MinOf(sx, 6)))]
      bn == LBn("g", "b", "m", "v", en, 2 * sx, std, sx)
  IN NewF("x", sh, H(s, -30, 30)) \o NewF("g", <<c>>, H(s + 1, -4, 4)) \o NewF("b", <<c>>, H(s + 2, -20, 20)) \o NewF("m", <<c>>, H(s + 3, -10, 10))
     \o NewF("v", <<c>>, [Sq([i \in 1..c |-> (std[i] * std[i]) - en]) EXCEPT !.x = 0 - 2 * sx])
     \o NewF("y", sh, Const(-777))
     \o <<MkA("L", bn), RunA("L", "x", "y"), FillA("x", H(s + 9, -30, 30)), RunA("L", "x", "y")>>
     \o (IF inplace THEN <<RunA("L", "x", "x")>> ELSE <<>>)
     \o <<FillA("g", H(s + 11, -4, 4)), FillA("x", H(s + 12, -30, 30)), RunA("L", "x", "y"), DelA("L")>>
Scen(sh, sx, s, inplace) == ScenE(sh, sx, s, inplace, 1)
Shapes == {<<1, c, w>> : c \in 1..4, w \in 1..5} \cup {<<1, c, h, w>> : c \in 1..3, h \in 1..3, w \in 1..4}
NRand == IF Tier = 0 THEN 150 ELSE 2000
RandCase(i) ==
  LET s == Seed * 10007 + (i * 29)
      sh == IF i % 3 = 0 THEN <<1, Rnd(s, 1, 1, 16), Rnd(s, 2, 1, 40)>> ELSE <<1, Rnd(s, 1, 1, 16), Rnd(s, 2, 1, 12), Rnd(s, 3, 1, 12)>>
  IN ScenE(sh, Choose(s, 4, <<0, 1, 2, 3, 5, 8, 10, 12>>), s, i % 2 = 0, IF i % 5 = 4 THEN 0 ELSE 1)
LargeShapes == << <<1, 300, 2, 3>>, <<1, 2, 70, 300>>, <<1, 3, 5000>>, <<1, 300, 2>>, <<1, 70, 9, 11>>, <<1, 3, 150, 151>>, <<1, 2, 33001>>, <<1, 1, 260, 270>> >>
GKeys == {<<"s", sh>> : sh \in Shapes} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..Len(LargeShapes)}
GCases(ky) ==
  CASE ky[1] = "s" -> {Scen(ky[2], sx, Seed + 10 * sx + Prod(ky[2]), sx % 2 = 0) : sx \in {0, 1, 2, 3, 5, 8, 10, 12}}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> {Scen(LargeShapes[ky[2]], 5, Seed, TRUE)}
=============================================================================
