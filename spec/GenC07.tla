------------------------------- MODULE GenC07 -------------------------------
(* C07: 1-D convolution = ONNX Conv *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

Chans == << <<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<2,2,2>>, <<3,2,1>>, <<4,2,2>>, <<2,4,2>>, <<3,3,3>>, <<4,4,2>>, <<6,3,3>>, <<3,6,3>>, <<5,4,1>>, <<6,4,2>>, <<4,8,4>> >>
Scen(c, m, g, w, k, sd, p, bias, s, e1, e2) ==
  LET xsh == <<1, c, w>> wsh == <<m, c \div g, k>>
      x0 == Zeros(xsh) w0 == Zeros(wsh)
      osh == ConvShape(x0, w0, p, <<sd>>)
  IN NewF("x", xsh, HX(s, -16, 16, e1)) \o NewF("w", wsh, HX(s + 1, -8, 8, e2))
     \o (IF bias THEN NewF("b", <<m>>, HX(s + 2, -500, 500, e1 + e2)) ELSE <<>>)
     \o NewF("y", osh, Const(-77777))
     \o <<MkA("L", LConv("w", IF bias THEN "b" ELSE "", p, <<sd>>, g)), RunA("L", "x", "y"),
          FillA("x", HX(s + 5, -16, 16, e1)), RunA("L", "x", "y"), DelA("L")>>
SmallGeo == {<<w, k, s>> : w \in 1..7, k \in {1, 3, 5}, s \in 1..4}
SmallPads == {<<>>} \cup {<<l, r>> : l \in 0..3, r \in 0..3}
PW(p) == IF p = <<>> THEN 0 ELSE p[1] + p[2]

NRand == IF Tier = 0 THEN 250 ELSE 3000
RandCase(i) ==
  LET s == Seed * 10007 + (i * 29)
      k == Choose(s, 1, <<1, 3, 3, 5, 7, 9, 11, 21>>)
      p0 == <<Rnd(s, 2, 0, 6), Rnd(s, 3, 0, 6)>>
      p == IF Rnd(s, 4, 0, 3) = 0 THEN <<>> ELSE p0
      w == MaxOf(Rnd(s, 5, 1, 40), k - PW(p))
      ch == Chans[1 + (Rnd(s, 6, 0, 999) % Len(Chans))]
      e == IF i % 7 = 0 THEN Choose(s, 30, <<-60, -30, 20, 50>>) ELSE 0
  IN Scen(ch[1], ch[2], ch[3], w, k, Rnd(s, 7, 1, 7), p, Rnd(s, 8, 0, 2) > 0, s, e, IF i % 14 = 0 THEN 8 - e ELSE 0)
Large(k) ==
  CASE k = 1 -> Scen(70, 3, 1, 40, 3, 1, <<1, 1>>, TRUE, Seed, 0, 0)
    [] k = 2 -> Scen(1, 1, 1, 5000, 9, 2, <<4, 4>>, TRUE, Seed, 0, 0)
    [] k = 3 -> Scen(64, 64, 64, 20, 5, 1, <<2, 2>>, FALSE, Seed, 0, 0)
    [] k = 4 -> Scen(2, 300, 2, 12, 3, 3, <<0, 2>>, TRUE, Seed, 0, 0)
    [] k = 5 -> Scen(3, 2, 1, 400, 101, 5, <<50, 50>>, TRUE, Seed, 0, 0)
    [] k = 6 -> Scen(300, 2, 1, 3, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 7 -> Scen(1, 2, 1, 1, 3, 1, <<9, 7>>, TRUE, Seed, 0, 0)
    [] k = 8 -> Scen(1, 1, 1, 70000, 1, 9, <<>>, TRUE, Seed, 0, 0)
    [] k = 9 -> Scen(48, 24, 12, 17, 3, 2, <<1, 0>>, TRUE, Seed, 0, 0)
    [] k = 10 -> Scen(1, 1, 1, 600, 300, 65, <<70, 260>>, TRUE, Seed, 0, 0)
    [] k = 11 -> Scen(1, 2, 1, 5, 3, 257, <<300, 270>>, FALSE, Seed, 0, 0)
    [] k = 12 -> Scen(260, 520, 260, 4, 3, 1, <<0, 1>>, TRUE, Seed, 0, 0)
    [] k = 13 -> Scen(2, 2, 1, 35001, 1, 1, <<0, 3>>, TRUE, Seed, 0, 0)
    [] k = 14 -> Scen(150, 150, 1, 3, 3, 2, <<>>, TRUE, Seed, 0, 0)
    [] k = 15 -> Scen(1, 1, 1, 70000, 1, 1, <<>>, TRUE, Seed, 0, 0)

GKeys == {<<"s", g>> : g \in SmallGeo} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..15}
GCases(ky) ==
  CASE ky[1] = "s" ->
         LET g == ky[2] IN
         {LET n == g[1] * 7 + g[2] * 5 + g[3] * 3 + PW(p) * 17 + (IF p = <<>> THEN 1 ELSE p[1] * 3) + Seed + (j * 5)
              ch == Chans[1 + (n % Len(Chans))]
          IN Scen(ch[1], ch[2], ch[3], g[1], g[2], g[3], p, n % 3 # 0, Seed * 13 + n, 0, 0)
          : p \in {p \in SmallPads : g[1] + PW(p) >= g[2]}, j \in 1..2}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> {Large(ky[2])}
=============================================================================
