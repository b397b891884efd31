----------------------------- MODULE PicoLayers -----------------------------
(***************************************************************************)
(* What each layer computes: the ONNX operator definitions over the        *)
(* tensors of PicoTensor, written declaratively (one expression per output *)
(* element), never as the loops of the implementation.                     *)
(***************************************************************************)
EXTENDS PicoTensor

OutDim(in, pads, k, s) == ((in + pads - k) \div s) + 1
K2(rank, k) == IF rank = 3 THEN <<1, k[1]>> ELSE k

(* ---- convolution (rank 3 and 4, one batch) ---- *)
ConvShape(in, w, p, s) ==
  LET n == N4(in.sh) wn == N4(w.sh) q == P4(Rank(in), p) st == K2(Rank(in), s) IN
  IF Rank(in) = 3 THEN <<n[1], wn[1], OutDim(n[4], q[2] + q[4], wn[4], st[2])>>
  ELSE <<n[1], wn[1], OutDim(n[3], q[1] + q[3], wn[3], st[1]), OutDim(n[4], q[2] + q[4], wn[4], st[2])>>

Conv(in, w, bias, p, s, g) ==
  LET n == N4(in.sh)
      wn == N4(w.sh)
      q == P4(Rank(in), p)
      st == K2(Rank(in), s)
      osh == ConvShape(in, w, p, s)
      kk == wn[3] * wn[4]
      vol == wn[2] * kk
      mg == wn[1] \div g                  \* output channels per group
      F(b, m, i, j) ==
        LET c0 == (m \div mg) * wn[2]
            i0 == i * st[1] - q[1]
            j0 == j * st[2] - q[2]
            T(k) == LET r == i0 + ((k \div wn[4]) % wn[3])
                        c == j0 + (k % wn[4])
                    IN IF r >= 0 /\ r < n[3] /\ c >= 0 /\ c < n[4]
                       THEN w.d[m * vol + k + 1] * in.d[((c0 + (k \div kk)) * n[3] + r) * n[4] + c + 1]
                       ELSE 0
        IN FoldFunction(LAMBDA x, y : x + y, IF bias = <<>> THEN 0 ELSE bias[m + 1],
                        [k \in 0..(vol - 1) |-> T(k)])
  IN [Mk(osh, Build(N4(osh), F)) EXCEPT !.x = in.x + w.x]

(* ---- pooling (rank 3 and 4) ---- *)
PoolShape(in, k, s, p) ==
  LET n == N4(in.sh) q == P4(Rank(in), p) kk == K2(Rank(in), k) st == K2(Rank(in), s) IN
  IF Rank(in) = 3 THEN <<n[1], n[2], OutDim(n[4], q[2] + q[4], kk[2], st[2])>>
  ELSE <<n[1], n[2], OutDim(n[3], q[1] + q[3], kk[1], st[1]), OutDim(n[4], q[2] + q[4], kk[2], st[2])>>

(* The rows and columns of the real elements inside a window *)
Win(lo, k, size) == MaxOf(lo, 0)..MinOf(lo + k - 1, size - 1)

MaxPool(in, k, s, p) ==
  LET n == N4(in.sh) q == P4(Rank(in), p) kk == K2(Rank(in), k) st == K2(Rank(in), s)
      osh == PoolShape(in, k, s, p)
      F(b, c, i, j) ==
        LET rs == Win(i * st[1] - q[1], kk[1], n[3])
            cs == Win(j * st[2] - q[2], kk[2], n[4])
        IN Max({ At(in, n, b, c, r, l) : r \in rs, l \in cs })
  IN [in EXCEPT !.sh = osh, !.d = Build(N4(osh), F), !.t = IF in.m = "o" THEN 1 ELSE 0]

AvgPool(in, k, s, p, incl) ==
  LET n == N4(in.sh) q == P4(Rank(in), p) kk == K2(Rank(in), k) st == K2(Rank(in), s)
      osh == PoolShape(in, k, s, p)
      rs(i) == Win(i * st[1] - q[1], kk[1], n[3])
      cs(j) == Win(j * st[2] - q[2], kk[2], n[4])
      F(b, c, i, j) == Sum([rc \in rs(i) \X cs(j) |-> At(in, n, b, c, rc[1], rc[2])])
      D(b, c, i, j) == IF incl THEN kk[1] * kk[2] ELSE Cardinality(rs(i)) * Cardinality(cs(j))
  IN [in EXCEPT !.sh = osh, !.d = Build(N4(osh), F), !.q = Build(N4(osh), D), !.t = 4, !.a = 8]

GlobalShape(in) == IF Rank(in) = 3 THEN <<in.sh[1], in.sh[2], 1>> ELSE <<in.sh[1], in.sh[2], 1, 1>>
Chan(in, b, c) == LET n == N4(in.sh) sz == n[3] * n[4] o == (b * n[2] + c) * sz
                  IN SubSeq(in.d, o + 1, o + sz)
GlobalMax(in) ==
  LET osh == GlobalShape(in)
      F(b, c, i, j) == FoldFunction(LAMBDA x, y : IF x > y THEN x ELSE y, Chan(in, b, c)[1], Chan(in, b, c))
  IN [in EXCEPT !.sh = osh, !.d = Build(N4(osh), F), !.t = IF in.m = "o" THEN 1 ELSE 0]
GlobalAvg(in) ==
  LET osh == GlobalShape(in) n == N4(in.sh)
      F(b, c, i, j) == Sum(Chan(in, b, c))
      D(b, c, i, j) == n[3] * n[4]
  IN [in EXCEPT !.sh = osh, !.d = Build(N4(osh), F), !.q = Build(N4(osh), D), !.t = 10, !.a = 20]

(* ---- dense ---- *)
Dense(in, w, bias) ==      \* weights (Y, X)
  LET y == w.sh[1] x == w.sh[2] IN
  [Mk(<<1, y>>, TLCEval([i \in 1..y |->
     FoldFunction(LAMBDA u, v : u + v, IF bias = <<>> THEN 0 ELSE bias[i],
                  [j \in 1..x |-> w.d[(i - 1) * x + j] * in.d[j]])])) EXCEPT !.x = in.x + w.x]
MatMul(in, w) ==           \* weights (X, Y)
  LET x == w.sh[1] y == w.sh[2] IN
  [Mk(<<1, y>>, TLCEval([i \in 1..y |->
     FoldFunction(LAMBDA u, v : u + v, 0, [j \in 1..x |-> w.d[(j - 1) * y + i] * in.d[j]])])) EXCEPT !.x = in.x + w.x]

(* ---- batch normalisation ----
   std[c] is the integer with std[c]^2 = 2^(2*sx) * (variance_c + epsilon)  *)
BatchNorm(in, gamma, beta, mean, std, sx) ==
  LET n == N4(in.sh)
      F(b, c, i, j) == gamma[c+1] * (At(in, n, b, c, i, j) - mean[c+1]) * Pow2(sx) + beta[c+1] * std[c+1]
      D(b, c, i, j) == std[c+1]
  IN [in EXCEPT !.d = Build(n, F), !.q = Build(n, D), !.t = 10, !.a = 1000]

(* ---- activations; ordinals or numbers ---- *)
Map(in, F(_)) == [in EXCEPT !.d = TLCEval([i \in 1..Len(in.d) |-> F(in.d[i])]), !.t = IF in.m = "o" THEN 1 ELSE 0]
ReLU(in)       == Map(in, LAMBDA v : IF v > 0 THEN v ELSE 0)
ClipT(in, lo, hi) == Map(in, LAMBDA v : IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v)
(* slope ln / 2^lx; only the negative elements get the additional exponent -lx *)
Leaky(in, ln, lx) == [in EXCEPT !.t = IF ln > 4096 THEN 1 ELSE 0,
                      !.xs = TLCEval([i \in 1..Len(in.d) |-> IF in.d[i] < 0 THEN 0 - lx ELSE 0]),
                      !.d = TLCEval([i \in 1..Len(in.d) |-> IF in.d[i] < 0 THEN in.d[i] * ln ELSE in.d[i]])]
PReLU(in, slope) ==  \* slope.x <= 0
  [in EXCEPT !.x = in.x + slope.x,
             !.d = TLCEval([i \in 1..Len(in.d) |-> IF in.d[i] < 0 THEN in.d[i] * slope.d[i] ELSE in.d[i] * Pow2(0 - slope.x)])]

(* ---- local response normalisation ; alpha = an / ad, beta = b4 / 4 ----
   x / (1 + an/(ad*n) * S)^beta  =  x * (ad*n / (ad*n + an*S))^beta          *)
LrnWindow(c, n, C, win) == LET l == IF win = "onnx" THEN (n - 1) \div 2 ELSE n \div 2
                           IN MaxOf(c - l, 0)..MinOf(c + (n \div 2), C - 1)
(* win = "onnx" is the definition; "sym" is the window reaching n div 2 to both sides that
   the library uses and its unit test demands: it differs for even n (known finding) *)
Lrn(in, an, ad, b4, n, win) ==     \* in.x = 0
  LET nn == N4(in.sh)
      S(b, c, i, j) == Sum([k \in LrnWindow(c, n, nn[2], win) |-> At(in, nn, b, k, i, j) * At(in, nn, b, k, i, j)])
      D(b, c, i, j) == (ad * n) + (an * S(b, c, i, j))
  IN [in EXCEPT !.q = Build(nn, D), !.qd = ad * n, !.p = b4, !.t = 10]

(* ---- sigmoid, tanh, softmax on the lattice of multiples of (ln 2)/4 ----
   2^(k/4) = 2^(k div 4) * QP(k) / 2^20                                       *)
QP(k) == <<1048576, 1246974, 1482910, 1763488>>[(k % 4) + 1]
One20 == 1048576
(* numerator and denominator of r/(1+r) for r = 2^(k/4), k >= 0: <<num, den>> *)
Logist(k) == LET e == k \div 4 IN
             IF e <= 9 THEN <<QP(k) * Pow2(e), (QP(k) * Pow2(e)) + One20>>
             ELSE IF e <= 28 THEN <<Pow2(e), Pow2(e) + 1>>   \* error below 2^-10 * 0.41, see LatticeOK
             ELSE <<1, 1>>
LatticeOK(k) == AbsV(k) <= 39 \/ k % 4 = 0
(* for k < 0 the value is 1/(1+2^(-k/4)) *)
SigN(k) == IF k >= 0 THEN Logist(k)[1] ELSE IF (0 - k) \div 4 <= 9 THEN One20 ELSE 1
SigD(k) == IF k >= 0 THEN Logist(k)[2]
           ELSE IF (0 - k) \div 4 <= 28 THEN Logist(0 - k)[2] ELSE 1
SigX(k) == IF k < 0 /\ (0 - k) \div 4 > 28 THEN k \div 4 ELSE 0
Sigmoid(in) ==
  CASE in.m = "l" -> [in EXCEPT !.m = "i", !.d = TLCEval([i \in 1..Len(in.d) |-> SigN(in.d[i])]),
                                !.q = TLCEval([i \in 1..Len(in.d) |-> SigD(in.d[i])]),
                                !.xs = TLCEval([i \in 1..Len(in.d) |-> SigX(in.d[i])]), !.t = 12]
    \* small numbers: 1/2 + v/4 with v = n * 2^-20
    [] in.m = "i" /\ in.x = -20 ->
         [in EXCEPT !.x = -22, !.d = TLCEval([i \in 1..Len(in.d) |-> 2 * One20 + in.d[i]]), !.t = 2]
    \* extreme ordinals: saturation
    [] in.m = "o" -> [in EXCEPT !.m = "i", !.d = TLCEval([i \in 1..Len(in.d) |-> IF in.d[i] > 0 THEN 1 ELSE 0]), !.t = 2, !.a = 1]
(* tanh(k ln2/4) = (r-1)/(r+1), r = 2^(2k/4) *)
Tanh(in) ==
  CASE in.m = "l" ->
         LET Nm(k) == LET u == AbsV(k) IN LET l == Logist(2 * u) IN
                      IF (2 * u) \div 4 > 28 THEN 1 ELSE (2 * l[1]) - l[2]
             Dm(k) == LET u == AbsV(k) IN IF (2 * u) \div 4 > 28 THEN 1 ELSE Logist(2 * u)[2]
         IN [in EXCEPT !.m = "i", !.d = TLCEval([i \in 1..Len(in.d) |-> IF in.d[i] < 0 THEN 0 - Nm(in.d[i]) ELSE Nm(in.d[i])]),
                       !.q = TLCEval([i \in 1..Len(in.d) |-> Dm(in.d[i])]), !.t = 4]
    \* small numbers n * 2^-9, |n| <= 16: tanh v = v - v^3/3 (the next term is below 2^-22 of v)
    [] in.m = "i" /\ in.x = -9 ->
         [in EXCEPT !.x = -27, !.d = TLCEval([i \in 1..Len(in.d) |-> in.d[i] * (3 * Pow2(18) - in.d[i] * in.d[i])]), !.q = TLCEval([i \in 1..Len(in.d) |-> 3]), !.t = 2]
    [] in.m = "i" -> [in EXCEPT !.t = 2]      \* tiny numbers: tanh v = v
    [] in.m = "o" -> [in EXCEPT !.m = "i", !.d = TLCEval([i \in 1..Len(in.d) |-> IF in.d[i] > 0 THEN 1 ELSE IF in.d[i] < 0 THEN -1 ELSE 0]), !.t = 2, !.a = 1]
TanhLatticeOK(k) == AbsV(2 * k) <= 39 \/ (2 * k) % 4 = 0

SeqMax(s) == FoldFunction(LAMBDA x, y : IF x > y THEN x ELSE y, s[1], s)
(* QP(dk) * 2^(dk div 4), rounded, for dk <= 0 *)
QExp(dk) == LET e == 0 - (dk \div 4) IN
            IF e > 24 THEN 0 ELSE IF e = 0 THEN QP(dk) ELSE (QP(dk) + Pow2(e - 1)) \div Pow2(e)
Softmax(in) ==
  LET n == Len(in.d)
      mx == SeqMax(in.d)
      cnt == Cardinality({i \in 1..n : in.d[i] = mx})
      S == Sum([i \in 1..n |-> QExp(in.d[i] - mx)])
  IN IF in.m = "l"
     THEN [in EXCEPT !.m = "i", !.d = TLCEval([i \in 1..n |-> QP(in.d[i] - mx)]),
                     !.q = TLCEval([i \in 1..n |-> S]),
                     !.xs = TLCEval([i \in 1..n |-> (in.d[i] - mx) \div 4]),
                     !.off = 0, !.t = 40 + (2 * n) + (AbsV(in.off) \div 4)]
     ELSE \* ordinals / numbers far apart: all weight on the largest
          [in EXCEPT !.m = "i", !.x = 0, !.d = TLCEval([i \in 1..n |-> IF in.d[i] = mx THEN 1 ELSE 0]),
                     !.q = TLCEval([i \in 1..n |-> cnt]), !.t = 10, !.a = 1]
=============================================================================
