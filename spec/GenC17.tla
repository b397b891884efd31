------------------------------- MODULE GenC17 -------------------------------
(* C17: requests outside the supported domain stop the process with an error.
   Every scenario ends in a refused request; most of them first make the same
   layer serve a supported request, so that a check done only once is not enough. *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

Bad(pre, x, y, layer, warm) ==
  pre \o NewF("x", x, H(Seed, -9, 9)) \o NewF("y", y, Const(5)) \o <<MkA("L", layer)>> \o warm \o <<RunA("L", "x", "y")>>
Warm(x, y) == NewF("wx", x, H(Seed + 1, -9, 9)) \o NewF("wy", y, Const(5)) \o <<RunA("L", "wx", "wy")>>

(* shapes of each rank *)
Sh(r, n, a, b, c) == CASE r = 1 -> <<a>> [] r = 2 -> <<a, b>> [] r = 3 -> <<n, a, b>> [] r = 4 -> <<n, a, b, c>>
Dims == {<<1, 1, 1>>, <<2, 3, 4>>, <<3, 1, 5>>, <<1, 6, 2>>, <<4, 4, 4>>, <<7, 2, 1>>}
Batches == {2, 3, 5, 64, 256, 257, 1000}

(* convolution with a 1x1 or 3x3 (1x3) kernel and several batches, with and without bias, padding, stride, groups *)
ConvCase(r, n, d, k, padded, bias, sd, grp, warm) ==
  LET ci == d[1] * grp co == 2 * grp
      w == IF r = 3 THEN <<co, d[1], k>> ELSE <<co, d[1], k, k>>
      x1 == Sh(r, 1, ci, d[2] + 2, d[3] + 2)
      xn == Sh(r, n, ci, d[2] + 2, d[3] + 2)
      p == IF padded THEN (IF r = 3 THEN <<1, 0>> ELSE <<1, 0, 1, 1>>) ELSE <<>>
      L == LConv("w", IF bias THEN "b" ELSE "", p, IF r = 3 THEN <<sd>> ELSE <<sd, sd>>, grp)
      y1 == ConvShape(Zeros(x1), Zeros(w), p, L.strides)
      yn == [y1 EXCEPT ![1] = n]
  IN Bad(NewF("w", w, H(Seed + 2, -3, 3)) \o NewF("b", <<co>>, H(Seed + 3, -3, 3)), xn, yn, L, IF warm THEN Warm(x1, y1) ELSE <<>>)
ConvFits(d, r, k) == IF r = 3 THEN d[2] + 2 >= k ELSE d[2] + 2 >= k /\ d[3] + 2 >= k

BnCase(x, warm) ==
  LET c == N4(x)[2]
      std == [i \in 1..c |-> 1 + (i % 3)]
      w == <<1, c, 2, 2>>
      pre == NewF("g", <<c>>, H(Seed, -4, 4)) \o NewF("b", <<c>>, H(Seed, -4, 4)) \o NewF("m", <<c>>, H(Seed, -4, 4))
             \o NewF("v", <<c>>, Sq([i \in 1..c |-> (std[i] * std[i]) - 1]))
  IN Bad(pre, x, x, LBn("g", "b", "m", "v", 1, 0, std, 0), IF warm THEN Warm(w, w) ELSE <<>>)

(* fully connected: x elements in, y out, ranks ri and ro of input and output *)
Flat(r, n) == CASE r = 1 -> <<n>> [] r = 2 -> <<1, n>> [] r = 3 -> <<1, 1, n>> [] r = 4 -> <<1, n, 1, 1>> [] r = 5 -> <<1, 1, 1, n>> [] r = 6 -> <<1, n, 1>> [] r = 7 -> <<1, 1, n, 1>>
FcCase(n, m, ri, ro, warm) ==
  Bad(NewF("w", <<m, n>>, H(Seed, -4, 4)) \o NewF("b", <<m>>, H(Seed, -4, 4)), Flat(ri, n), Flat(ro, m), LFc("w", "b"),
      IF warm THEN Warm(<<1, n>>, <<1, m>>) ELSE <<>>)

PoolCase(kind, x, y, padded, warm) ==
  LET L == CASE kind = "maxpool" -> LMax(<<2, 2>>, <<1, 1>>, IF padded THEN <<1, 0, 0, 1>> ELSE <<>>)
             [] kind = "avgpool" -> LAvg(<<2, 2>>, <<1, 1>>, IF padded THEN <<1, 0, 0, 1>> ELSE <<>>, x[1] % 2 = 0)
             [] kind = "gmax" -> LGMax [] kind = "gavg" -> LGAvg
      w == <<1, 2, 3, 3>>
      wy == CASE kind \in {"maxpool", "avgpool"} -> PoolShape(Zeros(w), L.kernel, L.strides, L.pads) [] OTHER -> <<1, 2, 1, 1>>
  IN Bad(<<>>, x, y, L, IF warm THEN Warm(w, wy) ELSE <<>>)
PoolKinds == {"maxpool", "avgpool", "gmax", "gavg"}

LrnCase(x, n, warm) == Bad(<<>>, x, x, LLrn(1, 2, 3, n), IF warm THEN Warm(<<1, 3, 2, 2>>, <<1, 3, 2, 2>>) ELSE <<>>)
PreluCase(sl, x, warm) == Bad(NewF("s", sl, H(Seed, -4, 4)), x, x, LPReLU("s"), IF warm THEN Warm(sl, sl) ELSE <<>>)
CopyCase(x, y, warm) == NewF("x", x, H(Seed, -9, 9)) \o NewF("y", y, Const(5))
                        \o (IF warm THEN NewF("z", x, Const(4)) \o <<CopyA("x", "z")>> ELSE <<>>) \o <<CopyA("x", "y")>>
CatCase(x, n, dim, warm) ==
  LET y == [x EXCEPT ![dim + 1] = n * x[dim + 1]]
      w == [x EXCEPT ![2] = n * x[2]] IN
  NewF("x", x, H(Seed, -9, 9)) \o NewF("y", y, Const(5)) \o (IF warm THEN NewF("w", w, Const(4)) \o <<CatA([i \in 1..n |-> "x"], "w", 1)>> ELSE <<>>)
  \o <<CatA([i \in 1..n |-> "x"], "y", dim)>>
CatFar(x, dim) == NewF("x", x, H(Seed, -9, 9)) \o NewF("y", x, Const(5)) \o <<CatA(<<"x">>, "y", dim)>>
DimCase(n, op) == NewF("x", <<n>>, Ids(0)) \o <<[op |-> "meta", id |-> "x"], [op |-> op, id |-> "x"]>>

Ranks == 1..4
AllShapes == {Sh(r, n, d[1], d[2], d[3]) : r \in Ranks, n \in {1, 2}, d \in Dims}
Kinds == {"conv3", "conv4", "bn", "fc", "pool", "lrn", "prelu", "copy", "cat", "dim"}
GKeys == {<<k>> : k \in Kinds}
GCases(ky) ==
  LET k == ky[1] IN
  CASE k \in {"conv3", "conv4"} ->
         LET r == IF k = "conv3" THEN 3 ELSE 4 IN
         {ConvCase(r, c[1], c[2], c[3], c[4], c[5], 1 + (Prod(c[2]) % 2), 1 + (c[1] % 2), c[6])
           : c \in {c \in Batches \X Dims \X {1, 3} \X BOOLEAN \X BOOLEAN \X BOOLEAN : ConvFits(c[2], r, c[3]) /\ (c[1] < 10 \/ (Prod(c[2]) < 10 /\ c[5] = c[6]))}}
    [] k = "bn" -> {BnCase(Sh(r, n, d[1], d[2], d[3]), w) : r \in {3, 4}, n \in Batches, d \in {<<1, 1, 1>>, <<3, 2, 4>>}, w \in BOOLEAN}
                   \cup {BnCase(Sh(r, 1, d[1], d[2], d[3]), w) : r \in {1, 2}, d \in Dims, w \in BOOLEAN}
    [] k = "fc" -> {FcCase(n, m, ri, ro, (n + m) % 2 = 0) : n \in {1, 2, 3, 5}, m \in {1, 2, 7}, ri \in 1..7, ro \in 1..7} \ {FcCase(n, m, 2, 2, (n + m) % 2 = 0) : n \in {1, 2, 3, 5}, m \in {1, 2, 7}}
    [] k = "pool" -> UNION {{PoolCase(kd, x, x, p, w), PoolCase(kd, x, IF Len(x) = 1 THEN <<1, 1, x[1]>> ELSE <<1, 1>> \o x, p, w),
                             PoolCase(kd, x, <<1, 1, 1, 1>>, p, w)} : kd \in PoolKinds, x \in {s \in AllShapes : Len(s) < 3}, p \in BOOLEAN, w \in BOOLEAN}
    [] k = "lrn" -> {LrnCase(x, n, w) : x \in {s \in AllShapes : Len(s) < 4}, n \in {1, 3, 5}, w \in BOOLEAN}
    [] k = "prelu" -> {PreluCase(c[1], c[2], c[3]) : c \in {c \in AllShapes \X AllShapes \X BOOLEAN : Len(c[1]) # Len(c[2]) /\ (Prod(c[1]) = Prod(c[2]) \/ (Prod(c[1]) + 3 * Prod(c[2]) + Len(c[1])) % 7 = 0)}}
    [] k = "copy" -> {CopyCase(c[1], c[2], c[3]) : c \in {c \in AllShapes \X AllShapes \X BOOLEAN : Prod(c[1]) # Prod(c[2]) /\ (Prod(c[1]) + 3 * Prod(c[2]) + Len(c[1]) + Len(c[2])) % 5 < 2}}
    [] k = "cat" -> UNION {{CatCase(x, n, dim, w) : dim \in (0..(Len(x) - 1)) \ {1}, n \in 1..3, w \in BOOLEAN} : x \in {s \in AllShapes : Len(s) > 1}}
                    \cup {CatFar(x, dim) : x \in {s \in AllShapes : Len(s) > 1 /\ Prod(s) < 30}, dim \in {4, 5, 255, 65537, 2147483647}}
    [] k = "dim" -> {DimCase(n, op) : n \in {1, 2, 3, 4, 5, 100, 4096}, op \in {"height", "width"}}
(* every scenario is refused at its last action, never before *)
RefusedAtTheEnd == (pc > 0 => (out.k = "die" <=> pc = Len(acts) + 1))
=============================================================================
