------------------------------- MODULE GenC15 -------------------------------
(* C15: local response normalisation window and formula *)
EXTENDS PicoGen
CONSTANTS Seed, Tier, Window
Scen(sh, an, ad, b4, n, s, m) ==
  NewF("x", sh, H(s, 0 - m, m)) \o NewF("y", sh, Const(-777))
  \o <<MkA("L", LLrnW(an, ad, b4, n, Window)), RunA("L", "x", "y"), FillA("x", H(s + 1, 0 - m, m)), RunA("L", "x", "y"), DelA("L")>>
Alphas == << <<1, 1>>, <<1, 2>>, <<3, 1>>, <<1, 10>>, <<1, 1000>>, <<5, 1>> >>
Betas == <<4, 3, 2, 8, 1, 3>>
Small == {<<c, n>> : c \in 1..7, n \in 1..9}
NRand == IF Tier = 0 THEN 120 ELSE 1500
Rand(k) ==
  LET s == Seed * 10007 + k * 31 a == Choose(s, 1, Alphas) IN
  Scen(<<Rnd(s, 2, 1, 3), Rnd(s, 3, 1, 12), Rnd(s, 4, 1, 6), Rnd(s, 5, 1, 6)>>, a[1], a[2], Choose(s, 6, Betas), Rnd(s, 7, 1, 14), s, IF a[2] >= 1000 THEN 200 ELSE Choose(s, 8, <<2, 9, 60>>))
Large(k) == CASE k = 1 -> Scen(<<1, 70, 5, 4>>, 1, 10000, 3, 5, Seed, 250) [] k = 2 -> Scen(<<1, 3, 20, 300>>, 1, 1, 3, 2, Seed, 9)
              [] k = 3 -> Scen(<<2, 96, 3, 3>>, 1, 10, 2, 300, Seed, 20) [] k = 4 -> Scen(<<1, 5, 270, 2>>, 2, 1, 4, 4, Seed, 9)
              [] k = 5 -> Scen(<<70, 4, 1, 2>>, 1, 1, 3, 3, Seed, 9)
              [] k = 6 -> Scen(<<1, 6, 2, 3>>, 7, 1, 4, 301, Seed, 20) [] k = 7 -> Scen(<<1, 2, 190, 181>>, 1, 2, 3, 3, Seed, 9)
              [] k = 8 -> Scen(<<1, 1, 260, 270>>, 1, 2, 4, 3, Seed, 9)
GKeys == {<<"s", g>> : g \in Small} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", j>> : j \in 1..8}
GCases(ky) ==
  CASE ky[1] = "s" -> {LET n == ky[2][1] * 5 + ky[2][2] * 3 + j + Seed a == Alphas[1 + (n % 6)]
                       IN Scen(<<1 + (n % 3), ky[2][1], 1 + (n % 2), 1 + (n % 4)>>, a[1], a[2], Betas[1 + ((n + j) % 6)], ky[2][2], n, IF a[2] >= 1000 THEN 200 ELSE 9) : j \in 1..6}
    [] ky[1] = "r" -> {Rand(ky[2])}
    [] ky[1] = "l" -> {Large(ky[2])}
=============================================================================
