------------------------------- MODULE GenC06 -------------------------------
(* C06: 2-D convolution = ONNX Conv *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

(* channels in, channels out, groups *)
Chans == << <<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<2,2,2>>, <<3,2,1>>, <<4,2,2>>, <<2,4,2>>, <<3,3,3>>, <<4,4,2>>, <<6,3,3>>, <<3,6,3>>, <<5,4,1>>, <<6,4,2>>, <<4,8,4>> >>

Scen(c, m, g, h, w, kh, kw, s1, s2, p, bias, s, e1, e2) ==
  LET xsh == <<1, c, h, w>> wsh == <<m, c \div g, kh, kw>>
      x0 == Zeros(xsh) w0 == Zeros(wsh)
      osh == ConvShape(x0, w0, p, <<s1, s2>>)
      small == Prod(osh) * (c \div g) * kh * kw < 3000
  IN NewF("x", xsh, HX(s, -16, 16, e1)) \o NewF("w", wsh, HX(s + 1, -8, 8, e2))
     \o (IF bias THEN NewF("b", <<m>>, HX(s + 2, -500, 500, e1 + e2)) ELSE <<>>)
     \o NewF("y", osh, Const(-77777))
     \o <<MkA("L", LConv("w", IF bias THEN "b" ELSE "", p, <<s1, s2>>, g)), RunA("L", "x", "y")>>
     \o (IF small THEN <<FillA("x", HX(s + 5, -16, 16, e1)), RunA("L", "x", "y")>> ELSE <<>>)
     \o <<DelA("L")>>

(* does the padded input hold at least one window *)
Fits(h, w, kh, kw, p) == LET q == P4(4, p) IN h + q[1] + q[3] >= kh /\ w + q[2] + q[4] >= kw

P1 == IF Tier = 0 THEN 0..1 ELSE 0..2
SmallGeo == {<<h, w, kh, kw, s1, s2>> : h \in {3, 4}, w \in {3, 5}, kh \in {1, 3}, kw \in {1, 3}, s1 \in 1..3, s2 \in 1..3}
SmallPads == {<<>>} \cup {<<t, l, b, r>> : t \in P1, l \in P1, b \in P1, r \in P1}

NRand == IF Tier = 0 THEN 260 ELSE 3000
RDim(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 5 THEN Rnd(s, i + 50, 1, 6) ELSE IF r < 9 THEN Rnd(s, i + 50, 6, 12) ELSE Rnd(s, i + 50, 12, 20)
RK(s, i) == Choose(s, i, <<1, 3, 3, 3, 5, 5, 7, 9, 11>>)
RPad(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 4 THEN 0 ELSE IF r < 9 THEN Rnd(s, i + 50, 1, 3) ELSE Rnd(s, i + 50, 4, 8)
RandCase(k) ==
  LET s == Seed * 10007 + (k * 31)
      kh == RK(s, 1) kw == RK(s, 2)
      p0 == [i \in 1..4 |-> RPad(s, 10 + i)]
      p == IF Rnd(s, 20, 0, 4) = 0 THEN <<>> ELSE p0
      q == P4(4, p)
      h == MaxOf(RDim(s, 3), kh - q[1] - q[3]) w == MaxOf(RDim(s, 4), kw - q[2] - q[4])
      ch == Chans[1 + (Rnd(s, 5, 0, 999) % Len(Chans))]
      e == IF k % 7 = 0 THEN Choose(s, 30, <<-60, -30, 20, 50>>) ELSE 0
  IN Scen(ch[1], ch[2], ch[3], h, w, kh, kw, Rnd(s, 6, 1, 5), Rnd(s, 7, 1, 5), p, Rnd(s, 8, 0, 2) > 0, s, e, IF k % 14 = 0 THEN 8 - e ELSE 0)
Large(k) ==
  CASE k = 1 -> Scen(70, 3, 1, 5, 4, 3, 3, 1, 1, <<1, 1, 1, 1>>, TRUE, Seed, 0, 0)
    [] k = 2 -> Scen(2, 140, 2, 4, 4, 3, 1, 1, 2, <<0, 1, 1, 0>>, TRUE, Seed, 0, 0)
    [] k = 3 -> Scen(1, 1, 1, 40, 300, 3, 5, 2, 1, <<2, 0, 1, 3>>, TRUE, Seed, 0, 0)
    [] k = 4 -> Scen(1, 2, 1, 270, 9, 5, 3, 1, 2, <<>>, FALSE, Seed, 0, 0)
    [] k = 5 -> Scen(64, 64, 64, 6, 5, 3, 3, 1, 1, <<1, 0, 1, 2>>, TRUE, Seed, 0, 0)
    [] k = 6 -> Scen(3, 4, 1, 35, 31, 11, 11, 4, 4, <<2, 2, 2, 2>>, TRUE, Seed, 0, 0)
    [] k = 7 -> Scen(32, 16, 16, 5, 5, 1, 1, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 8 -> Scen(9, 3, 3, 7, 8, 7, 7, 3, 2, <<3, 3, 3, 3>>, FALSE, Seed, 0, 0)
    [] k = 9 -> Scen(300, 2, 1, 1, 1, 1, 1, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 10 -> Scen(1, 1, 1, 33, 33, 15, 13, 1, 1, <<7, 6, 7, 6>>, TRUE, Seed, 0, 0)
    [] k = 11 -> Scen(2, 260, 1, 2, 2, 1, 1, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 12 -> Scen(1, 3, 1, 1, 1, 3, 3, 1, 1, <<9, 8, 7, 6>>, TRUE, Seed, 0, 0)
    [] k = 13 -> Scen(1, 2, 1, 40, 34, 33, 17, 3, 5, <<20, 9, 14, 33>>, TRUE, Seed, 0, 0)
    [] k = 14 -> Scen(1, 1, 1, 3, 520, 1, 259, 1, 65, <<0, 0, 0, 0>>, TRUE, Seed, 0, 0)
    [] k = 15 -> Scen(1, 1, 1, 520, 2, 259, 1, 130, 1, <<1, 0, 1, 0>>, FALSE, Seed, 0, 0)
    [] k = 16 -> Scen(1, 1, 1, 2, 2, 3, 5, 17, 33, <<260, 1, 0, 300>>, TRUE, Seed, 0, 0)
    [] k = 17 -> Scen(260, 260, 260, 1, 3, 1, 3, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 18 -> Scen(6, 600, 3, 2, 1, 1, 1, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 19 -> Scen(2, 2, 1, 190, 181, 1, 1, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 21 -> Scen(1, 1, 1, 260, 270, 1, 1, 1, 1, <<>>, TRUE, Seed, 0, 0)
    [] k = 20 -> Scen(90, 90, 1, 3, 3, 3, 3, 1, 1, <<>>, TRUE, Seed, 0, 0)
NLarge == 21

GKeys == {<<"s", g>> : g \in SmallGeo} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..NLarge}
GCases(ky) ==
  CASE ky[1] = "s" ->
         LET g == ky[2] IN
         {LET n == (g[1] * 7 + g[2] * 5 + g[3] * 3 + g[4] + g[5] * 11 + g[6] * 13 + Sum(p) * 17 + (IF p = <<>> THEN 1 ELSE p[1] + 2 * p[2] + 5 * p[3] + 9 * p[4]) + Seed)
              ch == Chans[1 + (n % Len(Chans))]
          IN Scen(ch[1], ch[2], ch[3], g[1], g[2], g[3], g[4], g[5], g[6], p, n % 3 # 0, Seed * 13 + n, 0, 0)
          : p \in {p \in SmallPads : Fits(g[1], g[2], g[3], g[4], p)}}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> {Large(ky[2])}
=============================================================================
