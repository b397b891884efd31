------------------------------- MODULE GenC22 -------------------------------
(* C22: PGM images and float images *)
EXTENDS PicoFileGen
CONSTANTS Seed, Tier
Bounds == << <<0, 1, 0>>, <<-1, 1, 0>>, <<0, 255, 0>>, <<-128, 127, 0>>, <<1, 3, -1>>, <<-5, -2, 0>>, <<0, 0, 0>>, <<-3, 100, -5>>, <<7, 1000, 6>> >>
PutPgm(f, h, w, px) == [op |-> "putpgm", file |-> f, h |-> h, w |-> w, px |-> px]
RdPgm(f, p, b) == [op |-> "rpgm", file |-> f, pad |-> p, lo |-> b[1], hi |-> b[2], x |-> b[3]]
WrPgm(f, h, w, v, x) == [op |-> "wpgm", file |-> f, h |-> h, w |-> w, v |-> v, x |-> x]
WrF(f, h, w, b) == [op |-> "wfloat", file |-> f, h |-> h, w |-> w, b |-> b]
(* bytes that are white space, digits, comment signs or end-of-file-like, before all others *)
Nasty == <<9, 10, 11, 12, 13, 32, 35, 48, 57, 0, 255, 26, 127, 128, 80, 45>>
Px(s, n) == [i \in 1..n |-> IF Hash(i, s) % 3 = 0 THEN Choose(s + 1, i, Nasty) ELSE Hash(i, s) % 256]
Lead(c, n, s) == [i \in 1..n |-> IF i <= 2 THEN c ELSE Hash(i, s) % 256]
Read(h, w, s) == <<PutPgm("p", h, w, Px(s, h * w))>> \o [p \in 1..4 |-> RdPgm("p", p - 1, Choose(s, p, Bounds))]
LeadCase(c, s) == <<PutPgm("p", 2, 3, Lead(c, 6, s)), RdPgm("p", 0, Bounds[1]), RdPgm("p", 1, Bounds[2]), PutPgm("q", 1, 1, <<c>>), RdPgm("q", 0, Bounds[3]), PutPgm("q", 3, 2, Reverse(Lead(c, 6, s))), RdPgm("q", 2, Bounds[4])>>
Values(s, n, m) == [i \in 1..n |-> Rnd(s, i, 0 - m, m)]
Write(h, w, v, x) == <<WrPgm("p", h, w, v, x), RdPgm("p", 0, Bounds[1]), RdPgm("p", 2, Bounds[4])>>
WriteCase(h, w, s) ==
  LET n == h * w m == Choose(s, 1, <<1, 5, 200, 999, 1001, 30000, 1000000>>) x == Choose(s, 2, <<0, 0, 0, -3, 4, -20, 20, -60, 60>>)
      k == Rnd(s, 4, 0, 5) IN
  IF k = 0 THEN Write(h, w, [i \in 1..n |-> Rnd(s, 0, 0 - m, m)], x)              \* constant
  ELSE IF k = 1 THEN Write(h, w, [i \in 1..n |-> m + Rnd(s, i, 0, 3)], x)          \* all far above
  ELSE IF k = 2 THEN Write(h, w, [i \in 1..n |-> 0 - m - Rnd(s, i, 0, 3)], x)      \* all far below
  ELSE IF k = 3 THEN Write(h, w, [i \in 1..n |-> IF i = 1 + (Hash(1, s) % n) THEN m ELSE 0], x)
  ELSE Write(h, w, Values(s, n, m), x)
Full == Write(16, 16, [i \in 1..256 |-> i - 1], 0) \o Write(16, 16, [i \in 1..256 |-> 128 - i], 3) \o <<PutPgm("p", 16, 16, [i \in 1..256 |-> i - 1]), RdPgm("p", 1, Bounds[2])>>
FloatCase(h, w, s) == <<WrF("f", h, w, Finite(s, h * w)), WrF("f", w, h, Finite(s + 1, h * w))>>
Errors == <<RdPgm("missing", 1, Bounds[1]), WrPgm("no/dir", 1, 2, <<1, 2>>, 0), WrF("no/dir", 1, 2, Finite(1, 2)), RdPgm("no/dir", 0, Bounds[1])>> \o Read(2, 2, 1)
Big(k) == CASE k = 1 -> Read(40, 30, Seed) [] k = 2 -> Write(1, 400, Values(Seed, 400, 3000), 0) [] k = 3 -> Write(400, 1, Values(Seed, 400, 3000), -2)
            [] k = 4 -> FloatCase(30, 20, Seed) [] k = 5 -> Read(1, 700, Seed) [] k = 6 -> Read(700, 1, Seed)
            [] k = 7 -> <<PutPgm("p", 65535, 1, Px(Seed, 65535)), RdPgm("p", 1, Bounds[2])>> [] k = 8 -> <<PutPgm("p", 1, 65535, Px(Seed, 65535)), RdPgm("p", 1, Bounds[3])>>
            [] k = 9 -> FloatCase(1, 300, Seed) [] k = 10 -> FloatCase(2, 257, Seed) [] k = 11 -> FloatCase(1, 1, Seed) \o <<WrF("f", 260, 257, Finite(Seed, 66820))>>
            [] k = 12 -> <<PutPgm("p", 260, 257, Px(Seed, 66820)), RdPgm("p", 0, Bounds[3])>> [] k = 13 -> <<PutPgm("p", 255, 256, Px(Seed, 65280)), RdPgm("p", 1, Bounds[3])>>
            [] k = 14 -> <<WrPgm("p", 257, 260, Values(Seed, 66820, 1000), 0)>> [] k = 15 -> <<WrF("f", 1, 33000, Finite(Seed, 33000))>> [] k = 16 -> <<WrF("f", 33000, 1, Finite(Seed, 33000))>>
NW == IF Tier = 0 THEN 12 ELSE 120
GKeys == {<<"r", h, w>> : h \in 1..5, w \in 1..5} \cup {<<"lead", c>> : c \in 0..255} \cup {<<"w", h, w>> : h \in 1..5, w \in 1..5} \cup {<<"f", h, w>> : h \in 1..4, w \in 1..4}
         \cup {<<"full">>, <<"err">>} \cup {<<"big", k>> : k \in 1..16}
GCases(ky) ==
  CASE ky[1] = "r" -> {Read(ky[2], ky[3], Seed * 53 + j) : j \in 1..NW}
    [] ky[1] = "lead" -> {LeadCase(ky[2], Seed)}
    [] ky[1] = "w" -> {WriteCase(ky[2], ky[3], Seed * 59 + 7 * j) : j \in 1..(2 * NW)}
    [] ky[1] = "f" -> {FloatCase(ky[2], ky[3], Seed * 61 + j) : j \in 1..NW}
    [] ky[1] = "full" -> {Full} [] ky[1] = "err" -> {Errors} [] ky[1] = "big" -> {Big(ky[2])}
=============================================================================
