------------------------------- MODULE GenC11 -------------------------------
(* C11: dense layers *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
Fc(x, y, bias, s, e1, e2) ==
  NewF("x", <<1, x>>, HX(s, -16, 16, e1)) \o NewF("w", <<y, x>>, HX(s + 1, -8, 8, e2))
  \o (IF bias = 1 THEN NewF("b", <<y>>, HX(s + 2, -500, 500, e1 + e2)) ELSE IF bias = 2 THEN NewF("b", <<1, y>>, HX(s + 2, -500, 500, e1 + e2)) ELSE <<>>)
  \o NewF("y", <<1, y>>, Const(-7777))
  \o <<MkA("L", LFc("w", IF bias = 0 THEN "" ELSE "b")), RunA("L", "x", "y"), FillA("x", HX(s + 4, -16, 16, e1)), RunA("L", "x", "y"), DelA("L")>>
Mm(x, y, s, e1, e2) ==
  NewF("x", <<1, x>>, HX(s, -16, 16, e1)) \o NewF("w", <<x, y>>, HX(s + 1, -8, 8, e2))
  \o NewF("y", <<1, y>>, Const(-7777))
  \o <<MkA("L", LMatMul("w")), RunA("L", "x", "y"), FillA("x", HX(s + 4, -16, 16, e1)), RunA("L", "x", "y"), DelA("L")>>
Small == IF Tier = 0 THEN 1..9 ELSE 1..20
NRand == IF Tier = 0 THEN 120 ELSE 1500
RandX(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 5 THEN Rnd(s, i + 50, 1, 12) ELSE IF r < 9 THEN Rnd(s, i + 50, 12, 70) ELSE Rnd(s, i + 50, 70, 300)
Large == << <<5000, 3>>, <<3, 5000>>, <<257, 65>>, <<1, 300>>, <<300, 1>>, <<1025, 10>>, <<129, 129>>, <<300, 230>>, <<66000, 2>> >>
GKeys == {<<"s", x, y>> : x \in Small, y \in Small} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..Len(Large)}
GCases(ky) ==
  CASE ky[1] = "s" -> {Fc(ky[2], ky[3], b, Seed + 17 * ky[2] + ky[3], 0, 0) : b \in 0..2} \cup {Mm(ky[2], ky[3], Seed + 17 * ky[2] + ky[3], 0, 0)}
    [] ky[1] = "r" -> LET s == Seed * 10007 + ky[2] * 29
                          e == IF ky[2] % 5 = 0 THEN Choose(s, 30, <<-60, -30, 20, 50>>) ELSE 0
                          e2 == IF ky[2] % 10 = 0 THEN 8 - e ELSE 0
                      IN {Fc(RandX(s, 1), RandX(s, 2), Rnd(s, 3, 0, 2), s, e, e2), Mm(RandX(s, 4), RandX(s, 5), s, e, e2)}
    [] ky[1] = "l" -> LET d == Large[ky[2]] IN {Fc(d[1], d[2], 1, Seed, 0, 0), Fc(d[1], d[2], 0, Seed, 0, 0), Mm(d[1], d[2], Seed, 0, 0)}
=============================================================================
