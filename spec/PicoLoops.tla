----------------------------- MODULE PicoLoops -----------------------------
(***************************************************************************)
(* The loops of the library, one memory-writing step at a time: rows       *)
(* copied into a padded tensor, one output element per window, channels    *)
(* accumulated through a scratch tensor and added one by one, blocks       *)
(* copied into a concatenation, running accumulators of the global pools.  *)
(* Every read and write goes by flat addresses as the code computes them.  *)
(* Checked over all small configurations: no address outside a tensor is   *)
(* ever read or written, every output element is written before the end    *)
(* whatever it held before, channels not yet reached are untouched, the    *)
(* accumulated channels are partial sums, and the result equals the        *)
(* declarative definitions of PicoTensor and PicoLayers, which the replay  *)
(* of GenC02 .. GenC15 holds the code to.  So an in-bounds, exact          *)
(* algorithm exists for everything those definitions promise, and the      *)
(* definitions are not vacuous.                                            *)
(***************************************************************************)
EXTENDS PicoLayers
CONSTANTS Op, Seed, Tier
VARIABLES j,      \* the job: operands and parameters
          pad,    \* the padded input (its contents), <<>> when not padded
          out,    \* the output's contents
          tmp,    \* the scratch tensor's contents
          acc,    \* running accumulator
          pc,     \* loop counters
          bad     \* an address was outside its tensor
vars == <<j, pad, out, tmp, acc, pc, bad>>

Garbage == 7777
Lowest == -1000000
G(sh, s, x) == Fill(Zeros(sh), H(s, -9, 9))
NoJob == [op |-> Op, x |-> Zeros(<<1>>), w |-> Zeros(<<1>>), b |-> <<>>, p |-> <<>>, s |-> <<1, 1>>, k |-> <<1, 1>>, g |-> 1, incl |-> TRUE, xs |-> <<>>, want |-> Zeros(<<1>>)]
Sh(rank, n, c, h, w) == IF rank = 4 THEN <<n, c, h, w>> ELSE <<n, c, w>>
Pads(rank) == {<<>>} \cup (IF rank = 4 THEN {<<0, 0, 0, 0>>, <<1, 0, 2, 1>>, <<0, 2, 1, 0>>} ELSE {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>})
Fits(jb) == LET n == N4(jb.x.sh) q == P4(Rank(jb.x), jb.p) kk == IF Op = "conv" THEN <<N4(jb.w.sh)[3], N4(jb.w.sh)[4]>> ELSE K2(Rank(jb.x), jb.k)
            IN n[3] + q[1] + q[3] >= kk[1] /\ n[4] + q[2] + q[4] >= kk[2]
(* a window wholly in the padding has no elements to average *)
Meets(jb) == LET n == N4(jb.x.sh) q == P4(Rank(jb.x), jb.p) kk == K2(Rank(jb.x), jb.k) st == K2(Rank(jb.x), jb.s) o == N4(PoolShape(jb.x, jb.k, jb.s, jb.p))
             IN /\ \A i \in 0..(o[3] - 1) : Win(i * st[1] - q[1], kk[1], n[3]) # {}
                /\ \A i \in 0..(o[4] - 1) : Win(i * st[2] - q[2], kk[2], n[4]) # {}

(* Parameters of the jobs: <<rank, numbers ..., pads>>; the cross products are thinned by a hash, less in the thorough tier *)
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31>>
Kept(t, m) == LET f == IF Tier = 1 THEN MaxOf(1, m \div 6) ELSE m n == Len(t) IN
              (Sum([i \in 1..(n - 1) |-> Primes[i] * t[i]]) + (37 * Sum([i \in 1..Len(t[n]) |-> (2 + i) * (1 + t[n][i])])) + Seed) % f = 0
ConvP(z) == { <<4, g, cg, mg, h, w, kh, kw, bi, sh, sw, p>> : g \in 1..2, cg \in 1..3, mg \in 1..2, h \in {1, 3, 4}, w \in {3, 5}, kh \in {1, 3}, kw \in {1, 3}, bi \in 0..1,
                p \in Pads(4), sh \in 1..2, sw \in {1, 3} }
       \cup { <<3, g, cg, mg, 1, w, 1, kw, bi, s, 1, p>> : g \in 1..3, cg \in 1..3, mg \in 1..2, w \in {1, 3, 4, 6}, kw \in {1, 3, 5}, bi \in 0..1, p \in Pads(3), s \in 1..3 }
ConvJob(t) == LET r == t[1] g == t[2] cg == t[3] mg == t[4] IN
  [NoJob EXCEPT !.x = G(Sh(r, 1, g * cg, t[5], t[6]), Seed, 0), !.w = G(Sh(r, g * mg, cg, t[7], t[8]), Seed + 1, 0),
                !.b = IF t[9] = 1 THEN [i \in 1..(g * mg) |-> 10 * i] ELSE <<>>, !.p = t[12], !.s = <<t[10], t[11]>>, !.g = g]
PoolP(z) == { <<4, n, c, h, w, kh, kw, sh, sw, i, p>> : n \in 1..2, c \in 1..2, h \in {1, 2, 4}, w \in {2, 3, 5}, kh \in 1..3, kw \in 1..3, p \in Pads(4), sh \in 1..2, sw \in {1, 3}, i \in 0..1 }
       \cup { <<3, n, c, 1, w, k, 9, s, 9, i, p>> : n \in 1..2, c \in 1..3, w \in 1..6, k \in 1..4, p \in Pads(3), s \in 1..3, i \in 0..1 }
PoolJob(t) == [NoJob EXCEPT !.x = G(Sh(t[1], t[2], t[3], t[4], t[5]), Seed, 0), !.p = t[11], !.s = <<t[8], t[9]>>, !.k = <<t[6], t[7]>>, !.incl = (t[10] = 1)]
PadP(z) == { <<4, a, b, c, d, p>> : a, b, c, d \in 1..2, p \in {<<a, b, c, d>> : a, b, c, d \in 0..2} }
      \cup { <<3, a, b, c, 1, p>> : a, b \in 1..3, c \in 1..4, p \in {<<a, b>> : a, b \in 0..3} }
      \cup { <<2, a, b, 1, 1, p>> : a, b \in 1..4, p \in {<<a, b, c, d>> : a, b, c, d \in 0..2} }
PadJob(t) == [NoJob EXCEPT !.x = G(SubSeq(<<t[2], t[3], t[4], t[5]>>, 1, t[1]), Seed, 0), !.p = t[6]]
DenseP(z) == { <<a, b, bi, m, <<>> >> : a, b \in 1..5, bi \in 0..1, m \in 0..1 }
DenseJob(t) == LET a == t[1] b == t[2] m == t[4] = 1 IN
  [NoJob EXCEPT !.x = G(<<1, a>>, Seed, 0), !.w = G(IF m THEN <<a, b>> ELSE <<b, a>>, Seed + 1, 0), !.b = IF t[3] = 1 /\ ~m THEN [i \in 1..b |-> 10 * i] ELSE <<>>, !.incl = m]
ConcatP(z) == { <<n, t1, t2, cs>> : n \in 1..3, cs \in UNION { [1..l -> 1..3] : l \in 1..3 }, t1 \in 0..2, t2 \in 0..2 }
ConcatJob(t) == LET tl == IF t[2] = 0 THEN <<>> ELSE IF t[3] = 0 THEN <<t[2]>> ELSE <<t[2], t[3]>> IN
  [NoJob EXCEPT !.xs = [i \in 1..Len(t[4]) |-> G(<<t[1], t[4][i]>> \o tl, Seed + i, 0)]]
GlobalP(z) == { <<r, n, c, h, w, m, <<>> >> : r \in {3, 4}, n \in 1..2, c \in 1..3, h \in 1..3, w \in 1..4, m \in 0..1 }
GlobalJob(t) == [NoJob EXCEPT !.x = G(Sh(t[1], t[2], t[3], IF t[1] = 3 THEN 1 ELSE t[4], t[5]), Seed, 0), !.incl = (t[6] = 1)]
Par(z) == CASE Op = "conv" -> {t \in ConvP(z) : Kept(t, 19)} [] Op \in {"max", "avg"} -> {t \in PoolP(z) : Kept(t, 11)} [] Op = "pad" -> {t \in PadP(z) : Kept(t, 8)}
            [] Op = "dense" -> DenseP(z) [] Op = "concat" -> ConcatP(z) [] Op = "global" -> GlobalP(z)
Job(t) == CASE Op = "conv" -> ConvJob(t) [] Op \in {"max", "avg"} -> PoolJob(t) [] Op = "pad" -> PadJob(t)
            [] Op = "dense" -> DenseJob(t) [] Op = "concat" -> ConcatJob(t) [] Op = "global" -> GlobalJob(t)
Wanted(jb) == CASE Op = "conv" -> Fits(jb) [] Op = "max" -> jb.incl /\ Fits(jb) /\ Meets(jb) [] Op = "avg" -> Fits(jb) /\ (jb.incl \/ Meets(jb)) [] OTHER -> TRUE

(* ---- what the job must give ---- *)
Want(jb) == CASE Op = "conv" -> Conv(jb.x, jb.w, jb.b, jb.p, jb.s, jb.g)
              [] Op = "max" -> MaxPool(jb.x, jb.k, jb.s, jb.p)
              [] Op = "avg" -> AvgPool(jb.x, jb.k, jb.s, jb.p, jb.incl)
              [] Op = "pad" -> Pad(jb.x, jb.p, -3)
              [] Op = "dense" -> IF jb.incl THEN MatMul(jb.x, jb.w) ELSE Dense(jb.x, jb.w, jb.b)
              [] Op = "concat" -> Concat(jb.xs)
              [] Op = "global" -> IF jb.incl THEN GlobalMax(jb.x) ELSE GlobalAvg(jb.x)

(* ---- geometry as the code sees it ---- *)
Padded(jb) == IF jb.p = <<>> THEN jb.x.sh ELSE PadShape(jb.x.sh, jb.p)
Border == CASE Op = "max" -> Lowest [] Op = "pad" -> -3 [] OTHER -> 0
In == IF j.p = <<>> THEN j.x.d ELSE pad          \* the tensor the loops read
Read(m, a) == IF a >= 0 /\ a < Len(m) THEN m[a + 1] ELSE Garbage
Out(a, m) == a < 0 \/ a >= Len(m)

Start(jb) ==
  /\ j = jb
  /\ pad = IF jb.p = <<>> THEN <<>> ELSE [i \in 1..Prod(Padded(jb)) |-> Garbage]
  /\ out = [i \in 1..Len(jb.want.d) |-> Garbage]
  /\ tmp = [i \in 1..Len(jb.want.d) |-> 0]
  /\ acc = 0 /\ bad = FALSE
  /\ pc = [ph |-> IF jb.p # <<>> THEN "clear" ELSE "go", a |-> 0, b |-> 0, r |-> 0, c |-> 0, n |-> 0, o |-> 0]
Init == \E t \in Par(0) : LET jb == TLCEval(Job(t)) IN Wanted(jb) /\ Start([jb EXCEPT !.want = Want(jb)])

(* ---- padding: everything is set to the border value, then row by row copied ---- *)
Clear == /\ pc.ph = "clear"
         /\ pad' = [i \in 1..Len(pad) |-> Border]
         /\ pc' = [pc EXCEPT !.ph = "rows"]
         /\ UNCHANGED <<j, out, tmp, acc, bad>>
Rows == /\ pc.ph = "rows"
        /\ LET n == N4(j.x.sh) q == P4(Rank(j.x), j.p) m == N4(Padded(j))
               ch == pc.a                                  \* batch and channel in one
               to == (ch * m[3] * m[4]) + ((pc.r + q[1]) * m[4]) + q[2]
               from == (ch * n[3] * n[4]) + (pc.r * n[4])
           IN /\ bad' = (bad \/ Out(to, pad) \/ Out(to + n[4] - 1, pad) \/ Out(from, j.x.d) \/ Out(from + n[4] - 1, j.x.d))
              /\ pad' = [i \in 1..Len(pad) |-> IF i > to /\ i <= to + n[4] THEN j.x.d[from + (i - to)] ELSE pad[i]]
              /\ pc' = IF pc.r + 1 < n[3] THEN [pc EXCEPT !.r = @ + 1]
                       ELSE IF ch + 1 < n[1] * n[2] THEN [pc EXCEPT !.a = @ + 1, !.r = 0]
                       ELSE [pc EXCEPT !.ph = IF Op = "pad" THEN "done" ELSE "go", !.a = 0, !.r = 0]
              /\ out' = IF pc'.ph = "done" THEN pad' ELSE out
        /\ UNCHANGED <<j, tmp, acc>>

(* ---- convolution: pc.a output channel, pc.b input channel within the group,
        pc.r / pc.c first row and column of the window, pc.n / pc.o output row and column ---- *)
ConvPix ==
  LET n == N4(Padded(j)) wn == N4(j.w.sh) st == K2(Rank(j.x), j.s) o == N4(j.want.sh)
      mg == wn[1] \div j.g
      cin == ((((pc.a \div mg) * n[2]) \div j.g) + pc.b)
      src(kr, kc) == (cin * n[3] * n[4]) + ((pc.r + kr) * n[4]) + pc.c + kc
      wsrc(kr, kc) == (((pc.a * wn[2]) + pc.b) * wn[3] * wn[4]) + (kr * wn[4]) + kc
      win == (0..(wn[3] - 1)) \X (0..(wn[4] - 1))
      v == Sum([k \in win |-> Read(j.w.d, wsrc(k[1], k[2])) * Read(In, src(k[1], k[2]))])
           + (IF pc.b = 0 /\ j.b # <<>> THEN j.b[pc.a + 1] ELSE 0)
      to == (pc.a * o[3] * o[4]) + (pc.n * o[4]) + pc.o
      nc == pc.c + st[2]
      nr == pc.r + st[1]
      \* the code's bounds: crop = kernel div 2, channel_col < width - crop
      more == nc + (wn[4] \div 2) < n[4] - (wn[4] \div 2)
      down == nr + (wn[3] \div 2) < n[3] - (wn[3] \div 2)
  IN /\ bad' = (bad \/ Out(to, out) \/ \E k \in win : Out(src(k[1], k[2]), In) \/ Out(wsrc(k[1], k[2]), j.w.d))
     /\ IF pc.b = 0 THEN out' = [out EXCEPT ![to + 1] = v] /\ UNCHANGED tmp
                    ELSE tmp' = [tmp EXCEPT ![to + 1] = v] /\ UNCHANGED out
     /\ pc' = IF more THEN [pc EXCEPT !.c = nc, !.o = @ + 1]
              ELSE IF down THEN [pc EXCEPT !.c = 0, !.o = 0, !.r = nr, !.n = @ + 1]
              ELSE [pc EXCEPT !.c = 0, !.o = 0, !.r = 0, !.n = 0, !.ph = IF pc.b = 0 THEN "next" ELSE "add"]
ConvGo == /\ Op = "conv" /\ pc.ph = "go" /\ ConvPix /\ UNCHANGED <<j, pad, acc>>
ConvAdd == /\ Op = "conv" /\ pc.ph = "add"
           /\ LET o == N4(j.want.sh) sz == o[3] * o[4] lo == pc.a * sz IN
              out' = [i \in 1..Len(out) |-> IF i > lo /\ i <= lo + sz THEN out[i] + tmp[i] ELSE out[i]]
           /\ pc' = [pc EXCEPT !.ph = "next"]
           /\ UNCHANGED <<j, pad, tmp, acc, bad>>
ConvNext == /\ Op = "conv" /\ pc.ph = "next"
            /\ pc' = IF pc.b + 1 < N4(j.w.sh)[2] THEN [pc EXCEPT !.b = @ + 1, !.ph = "go"]
                     ELSE IF pc.a + 1 < N4(j.w.sh)[1] THEN [pc EXCEPT !.b = 0, !.a = @ + 1, !.ph = "go"]
                     ELSE [pc EXCEPT !.ph = "done"]
            /\ UNCHANGED <<j, pad, out, tmp, acc, bad>>

(* ---- pooling: windows are clipped at the padded tensor's end; pc.a batch and channel in one ---- *)
PoolGo ==
  /\ Op \in {"max", "avg"} /\ pc.ph = "go"
  /\ LET n == N4(Padded(j)) q == P4(Rank(j.x), j.p) kk == K2(Rank(j.x), j.k) st == K2(Rank(j.x), j.s)
         oh == ((n[3] - kk[1]) \div st[1]) + 1
         ow == ((n[4] - kk[2]) \div st[2]) + 1
         rs == pc.r..(MinOf(pc.r + kk[1], n[3]) - 1)
         cs == pc.c..(MinOf(pc.c + kk[2], n[4]) - 1)
         src(r, c) == (pc.a * n[3] * n[4]) + (r * n[4]) + c
         el == [k \in rs \X cs |-> Read(In, src(k[1], k[2]))]
         up == MaxOf(pc.r, q[1])  dn == MinOf(pc.r + kk[1] - 1, n[3] - q[3] - 1)
         lf == MaxOf(pc.c, q[2])  rt == MinOf(pc.c + kk[2] - 1, n[4] - q[4] - 1)
         div == IF j.incl THEN kk[1] * kk[2] ELSE ((dn - up) + 1) * ((rt - lf) + 1)
         to == (pc.a * oh * ow) + (pc.n * ow) + pc.o
         more == pc.c + st[2] < n[4] /\ pc.o + 1 < ow
         down == pc.r + st[1] < n[3] /\ pc.n + 1 < oh
     IN /\ bad' = (bad \/ Out(to, out) \/ \E k \in rs \X cs : Out(src(k[1], k[2]), In))
        /\ out' = [out EXCEPT ![to + 1] = IF Op = "max" THEN Max({el[k] : k \in DOMAIN el}) ELSE Sum(el)]
        /\ tmp' = [tmp EXCEPT ![to + 1] = div]         \* the divisors
        /\ pc' = IF more THEN [pc EXCEPT !.c = @ + st[2], !.o = @ + 1]
                 ELSE IF down THEN [pc EXCEPT !.c = 0, !.o = 0, !.r = @ + st[1], !.n = @ + 1]
                 ELSE IF pc.a + 1 < n[1] * n[2] THEN [pc EXCEPT !.c = 0, !.o = 0, !.r = 0, !.n = 0, !.a = @ + 1]
                 ELSE [pc EXCEPT !.ph = "done"]
  /\ UNCHANGED <<j, pad, acc>>

(* ---- dense layers: pc.a output element, pc.b input element, acc the running sum ---- *)
DenseGo ==
  /\ Op = "dense" /\ pc.ph = "go"
  /\ LET X == j.x.sh[2] wi == j.w.sh[2] Y == IF j.incl THEN j.w.sh[2] ELSE j.w.sh[1]
         wa == IF j.incl THEN (pc.b * wi) + pc.a ELSE (pc.a * wi) + pc.b
         v == acc + (Read(j.x.d, pc.b) * Read(j.w.d, wa))
         last == pc.b + 1 = X
     IN /\ bad' = (bad \/ Out(pc.b, j.x.d) \/ Out(wa, j.w.d))
        /\ acc' = IF last THEN 0 ELSE v
        /\ out' = IF last THEN [out EXCEPT ![pc.a + 1] = v + (IF j.b # <<>> THEN j.b[pc.a + 1] ELSE 0)] ELSE out
        /\ pc' = IF ~last THEN [pc EXCEPT !.b = @ + 1]
                 ELSE IF pc.a + 1 < Y THEN [pc EXCEPT !.b = 0, !.a = @ + 1] ELSE [pc EXCEPT !.ph = "done"]
  /\ UNCHANGED <<j, pad, tmp>>

(* ---- concatenation: pc.a input, pc.b block (index in dimension 0), pc.o offset in every block ---- *)
ConcatGo ==
  /\ Op = "concat" /\ pc.ph = "go"
  /\ LET nb == j.want.sh[1]
         ob == Len(out) \div nb
         ib == Len(j.xs[pc.a + 1].d) \div nb
         to == (pc.b * ob) + pc.o
         from == pc.b * ib
     IN /\ bad' = (bad \/ Out(to, out) \/ Out(to + ib - 1, out) \/ Out(from, j.xs[pc.a + 1].d) \/ Out(from + ib - 1, j.xs[pc.a + 1].d))
        /\ out' = [i \in 1..Len(out) |-> IF i > to /\ i <= to + ib THEN j.xs[pc.a + 1].d[from + (i - to)] ELSE out[i]]
        /\ pc' = IF pc.b + 1 < nb THEN [pc EXCEPT !.b = @ + 1]
                 ELSE IF pc.a + 1 < Len(j.xs) THEN [pc EXCEPT !.b = 0, !.a = @ + 1, !.o = @ + ib]
                 ELSE [pc EXCEPT !.ph = "done"]
  /\ UNCHANGED <<j, pad, tmp, acc>>

(* ---- global pools: one accumulator for all channels, started anew for each ---- *)
GlobalGo ==
  /\ Op = "global" /\ pc.ph = "go"
  /\ LET n == N4(j.x.sh) sz == n[3] * n[4]
         v == Read(j.x.d, (pc.a * sz) + pc.b)
         w == IF j.incl THEN (IF pc.b = 0 \/ v > acc THEN v ELSE acc) ELSE acc + v
         last == pc.b + 1 = sz
     IN /\ bad' = (bad \/ Out((pc.a * sz) + pc.b, j.x.d))
        /\ acc' = IF last THEN 0 ELSE w
        /\ out' = IF last THEN [out EXCEPT ![pc.a + 1] = w] ELSE out
        /\ tmp' = IF last THEN [tmp EXCEPT ![pc.a + 1] = sz] ELSE tmp
        /\ pc' = IF ~last THEN [pc EXCEPT !.b = @ + 1]
                 ELSE IF pc.a + 1 < n[1] * n[2] THEN [pc EXCEPT !.b = 0, !.a = @ + 1] ELSE [pc EXCEPT !.ph = "done"]
  /\ UNCHANGED <<j, pad>>

Next == Clear \/ Rows \/ ConvGo \/ ConvAdd \/ ConvNext \/ PoolGo \/ DenseGo \/ ConcatGo \/ GlobalGo
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == vars

(* ---- what is checked ---- *)
InBounds == ~bad
OneStep == Cardinality({ph \in {"clear", "rows", "go", "add", "next", "done"} : pc.ph = ph}) = 1
Planes == LET o == N4(j.want.sh) IN o[3] * o[4]
NotYetReached ==
  pc.ph # "done" => CASE Op = "conv" -> \A i \in 1..Len(out) : ((i - 1) \div Planes) > pc.a => out[i] = Garbage
                      [] Op \in {"max", "avg", "global"} -> \A i \in 1..Len(out) : ((i - 1) \div Planes) > pc.a => out[i] = Garbage
                      [] OTHER -> TRUE
(* between two input channels the output channel is the convolution over the channels so far *)
PartialSums ==
  (Op = "conv" /\ pc.ph = "next") =>
    LET wn == N4(j.w.sh) vol == wn[2] * wn[3] * wn[4] kk == wn[3] * wn[4]
        cut == [j.w EXCEPT !.d = [i \in 1..Len(j.w.d) |-> IF (((i - 1) % vol) \div kk) <= pc.b THEN j.w.d[i] ELSE 0]]
        part == Conv(j.x, cut, j.b, j.p, j.s, j.g).d
    IN \A i \in 1..Len(out) : ((i - 1) \div Planes) = pc.a => out[i] = part[i]
EveryElement == pc.ph = "done" => \A i \in 1..Len(out) : out[i] # Garbage
Exactly == pc.ph = "done" => /\ out = j.want.d
                             /\ Op \in {"avg"} \/ (Op = "global" /\ ~j.incl) => tmp = j.want.q
Ends == pc.ph = "done" \/ ENABLED Next
OperandsKept == [][j' = j]_vars
(* the loops only ever advance: with finitely many counters they end *)
Terminates == <>(pc.ph = "done")
=============================================================================
