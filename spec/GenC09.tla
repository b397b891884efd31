------------------------------- MODULE GenC09 -------------------------------
(* C09: average pooling divides by the right number of elements *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

Fillers(s) == <<H(s, -300, 300), Ids(0), H(s, 1, 9), H(s, -90, -80), Const(7), HX(s, -50, 50, -100), HX(s, -50, 50, 90), H(s, 0, 1), Rev(50), H(s, -3, 3)>>
Scen(sh, k, sd, p, s) ==
  LET x0 == Zeros(sh) osh == PoolShape(x0, k, sd, p) f == Fillers(s) IN
  NewF("x", sh, f[1 + (s % 10)]) \o NewF("y", osh, Const(99999))
  \o <<MkA("L", LAvg(k, sd, p, FALSE)), MkA("M", LAvg(k, sd, p, TRUE)), RunA("M", "x", "y"), RunA("L", "x", "y"),
       FillA("x", f[1 + ((s + 3) % 10)]), RunA("M", "x", "y"), RunA("L", "x", "y"), DelA("L"), DelA("M")>>
Fits(sh, k, p) == LET n == N4(sh) q == P4(Len(sh), p) kk == K2(Len(sh), k) IN
                  n[3] + q[1] + q[3] >= kk[1] /\ n[4] + q[2] + q[4] >= kk[2]
PadOpts4(k) == {<<>>} \cup {<<t, l, b, r>> : t \in 0..MinOf(k[1] - 1, 2), l \in 0..MinOf(k[2] - 1, 2), b \in 0..MinOf(k[1] - 1, 2), r \in 0..MinOf(k[2] - 1, 2)}
PadOpts3(k) == {<<>>} \cup {<<l, r>> : l \in 0..(k - 1), r \in 0..(k - 1)}
G4 == {<<h, w, k1, k2, s1, s2>> : h \in {1, 3, 4}, w \in {2, 5}, k1 \in 1..3, k2 \in 1..3, s1 \in {1, 2}, s2 \in {1, 2, 3}}
G3 == {<<w, k, s>> : w \in {1, 2, 3, 5, 8}, k \in 1..4, s \in 1..4}
NRand == IF Tier = 0 THEN 250 ELSE 3000
RandCase(i) ==
  LET s == Seed * 10007 + (i * 29)
      r == IF i % 3 = 0 THEN 3 ELSE 4
      k == IF r = 3 THEN <<Rnd(s, 1, 1, 9)>> ELSE <<Rnd(s, 1, 1, 6), Rnd(s, 2, 1, 6)>>
      kk == K2(r, k)
      p0 == IF r = 3 THEN <<Rnd(s, 3, 0, kk[2] - 1), Rnd(s, 4, 0, kk[2] - 1)>>
            ELSE <<Rnd(s, 3, 0, kk[1] - 1), Rnd(s, 4, 0, kk[2] - 1), Rnd(s, 5, 0, kk[1] - 1), Rnd(s, 6, 0, kk[2] - 1)>>
      p == IF Rnd(s, 7, 0, 3) = 0 THEN <<>> ELSE p0
      q == P4(r, p)
      h == MaxOf(Rnd(s, 8, 1, 12), kk[1] - q[1] - q[3]) w == MaxOf(Rnd(s, 9, 1, 14), kk[2] - q[2] - q[4])
      sh == IF r = 3 THEN <<Rnd(s, 10, 1, 4), Rnd(s, 11, 1, 5), w>> ELSE <<Rnd(s, 10, 1, 3), Rnd(s, 11, 1, 5), h, w>>
  IN Scen(sh, k, IF r = 3 THEN <<Rnd(s, 12, 1, 7)>> ELSE <<Rnd(s, 12, 1, 5), Rnd(s, 13, 1, 5)>>, p, s)
Large(k) ==
  CASE k = 1 -> Scen(<<1, 70, 5, 6>>, <<3, 2>>, <<2, 2>>, <<1, 0, 1, 1>>, Seed)
    [] k = 2 -> Scen(<<2, 3, 20, 300>>, <<2, 3>>, <<2, 3>>, <<>>, Seed + 1)
    [] k = 3 -> Scen(<<1, 1, 270, 7>>, <<5, 5>>, <<3, 1>>, <<2, 2, 2, 2>>, Seed + 2)
    [] k = 4 -> Scen(<<2, 2, 5000>>, <<10>>, <<10>>, <<0, 9>>, Seed + 3)
    [] k = 5 -> Scen(<<1, 300, 4>>, <<2>>, <<2>>, <<1, 1>>, Seed + 4)
    [] k = 6 -> Scen(<<70, 2, 3, 3>>, <<2, 2>>, <<1, 1>>, <<1, 1, 1, 1>>, Seed + 5)
    [] k = 7 -> Scen(<<1, 2, 30, 30>>, <<17, 19>>, <<4, 6>>, <<16, 18, 3, 5>>, Seed + 6)
    [] k = 8 -> Scen(<<70, 3, 5>>, <<3>>, <<1>>, <<2, 1>>, Seed + 7)
    [] k = 9 -> Scen(<<1, 1, 70000>>, <<3>>, <<8>>, <<1, 1>>, Seed + 8)
    [] k = 10 -> Scen(<<1, 1, 40, 80>>, <<33, 70>>, <<20, 5>>, <<32, 9, 3, 65>>, Seed + 9)
    [] k = 11 -> Scen(<<1, 1, 600>>, <<300>>, <<65>>, <<280, 33>>, Seed + 10)
    [] k = 12 -> Scen(<<1, 2, 3, 520>>, <<1, 2>>, <<1, 258>>, <<>>, Seed + 11)
    [] k = 13 -> Scen(<<1, 2, 520, 1>>, <<258, 1>>, <<259, 1>>, <<0, 0, 0, 0>>, Seed + 12)
    [] k = 14 -> Scen(<<2, 260, 2, 2>>, <<2, 1>>, <<1, 1>>, <<1, 0, 0, 0>>, Seed + 13)
    [] k = 15 -> Scen(<<1, 2, 190, 181>>, <<2, 2>>, <<2, 2>>, <<>>, Seed + 14)
    [] k = 16 -> Scen(<<2, 2, 17001>>, <<2>>, <<2>>, <<1, 0>>, Seed + 15)
    [] k = 17 -> Scen(<<1, 2, 190, 180>>, <<1, 2>>, <<1, 1>>, <<0, 0, 0, 1>>, Seed + 16)
    [] k = 18 -> Scen(<<1, 1, 260, 270>>, <<1, 2>>, <<1, 1>>, <<>>, Seed + 17)
GKeys == {<<"g4", g>> : g \in G4} \cup {<<"g3", g>> : g \in G3} \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..18}
GCases(ky) ==
  LET g == ky[2] IN
  CASE ky[1] = "g4" ->
         {LET n == g[1] * 7 + g[2] * 5 + g[3] * 3 + g[4] * 11 + g[5] * 13 + g[6] + (IF p = <<>> THEN 1 ELSE p[1] + 3 * p[2] + 5 * p[3] + 9 * p[4]) + Seed
          IN Scen(<<1 + (n % 2), 1 + (n % 3), g[1], g[2]>>, <<g[3], g[4]>>, <<g[5], g[6]>>, p, n)
          : p \in {p \in PadOpts4(<<g[3], g[4]>>) : Fits(<<1, 1, g[1], g[2]>>, <<g[3], g[4]>>, p)
                        /\ (Tier = 1 \/ p = <<>> \/ (Hash((p[1] + 3 * p[2] + 9 * p[3] + 27 * p[4]) + 100 * g[1] + 17 * g[2] + 1000 * g[5] + 3001 * g[6], Seed) % 4 = 0))}}
    [] ky[1] = "g3" ->
         {LET n == g[1] * 7 + g[2] * 5 + g[3] * 3 + (IF p = <<>> THEN 1 ELSE p[1] + 3 * p[2]) + Seed
          IN Scen(<<1 + (n % 3), 1 + (n % 2), g[1]>>, <<g[2]>>, <<g[3]>>, p, n)
          : p \in {p \in PadOpts3(g[2]) : Fits(<<1, 1, g[1]>>, <<g[2]>>, p)}}
    [] ky[1] = "r" -> {RandCase(g)}
    [] ky[1] = "l" -> {Large(g)}
=============================================================================
