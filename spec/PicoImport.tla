----------------------------- MODULE PicoImport -----------------------------
(***************************************************************************)
(* Importing an ONNX model and living with the generated network.          *)
(*                                                                         *)
(* A model is a record                                                     *)
(*    nm    its name                                                       *)
(*    inp   the graph inputs, a sequence of [id, sh]                       *)
(*    outs  the graph outputs, a sequence of value names                   *)
(*    nodes the nodes in the order of the file: [n, op, ins, outs, at]     *)
(*    inits the initializers, a sequence of [id, k, t] ; k is "f" (float   *)
(*          tensor) or "n" (int64 tensor)                                  *)
(*    vi    "all" or "none": intermediate shapes recorded in the file      *)
(*    cls   "accept": plainly supported, the importer has to take it       *)
(*          "may": the importer may refuse it, but must not get it wrong   *)
(*    inin  initializers are listed among the graph inputs, too            *)
(*                                                                         *)
(* The machine imports the model, then follows a history of creating,      *)
(* loading, running and destroying instances of the generated network.     *)
(* A run executes the nodes one by one, each adding its result to the      *)
(* values known so far.                                                    *)
(***************************************************************************)
EXTENDS PicoLayers, Json, IOUtils

CONSTANTS Keys, Cases(_), Emit

(* ---- attributes: every attribute has the same fields ---- *)
At0(n, t, v, s, sh) == [n |-> n, t |-> t, v |-> v, s |-> s, sh |-> sh]
AI(n, v)     == At0(n, "ints", v, "", <<>>)
A1(n, v)     == At0(n, "int", <<v>>, "", <<>>)
AF(n, v, x)  == At0(n, "float", <<v, x>>, "", <<>>)      \* v * 2^x
AO(n, o)     == At0(n, "ord", <<o>>, "", <<>>)           \* a float given as an ordinal
AS(n, s)     == At0(n, "str", <<>>, s, <<>>)
AT(n, sh, v) == At0(n, "ten", v, "", sh)                 \* int64 tensor
ATF(n, sh, v) == At0(n, "tenf", v, "", sh)               \* float tensor
Nd(n, op, ins, outs, at) == [n |-> n, op |-> op, ins |-> ins, outs |-> outs, at |-> at]

Has(nd, a)       == \E i \in 1..Len(nd.at) : nd.at[i].n = a
Att(nd, a)       == nd.at[CHOOSE i \in 1..Len(nd.at) : nd.at[i].n = a]
IntsA(nd, a, df) == IF Has(nd, a) THEN Att(nd, a).v ELSE df
IntA(nd, a, df)  == IF Has(nd, a) THEN Att(nd, a).v[1] ELSE df
StrA(nd, a, df)  == IF Has(nd, a) THEN Att(nd, a).s ELSE df
HasIn(nd, i)     == Len(nd.ins) >= i /\ nd.ins[i] # ""
Ones(n)          == [i \in 1..n |-> 1]
Nulls(n)         == [i \in 1..n |-> 0]

(* ---- shapes, from the operator definitions; e maps names to values with a field sh;
        c maps names to the values known at import time (for shape operands) ---- *)
CeilDiv(a, b) == (a + b - 1) \div b
SpatialDim(nd, in, k, i, n) ==   \* i-th of n spatial dimensions, effective kernel k
  LET s == IntsA(nd, "strides", Ones(n))[i]
      p == IntsA(nd, "pads", Nulls(2 * n))
      a == StrA(nd, "auto_pad", "NOTSET")
  IN CASE a \in {"SAME_UPPER", "SAME_LOWER"} -> CeilDiv(in, s)
       [] a = "VALID" -> CeilDiv(in - k + 1, s)
       [] OTHER -> IF IntA(nd, "ceil_mode", 0) = 1 THEN CeilDiv(in + p[i] + p[i + n] - k, s) + 1
                   ELSE ((in + p[i] + p[i + n] - k) \div s) + 1
KernelOf(nd, w) == IntsA(nd, "kernel_shape", SubSeq(w, 3, Len(w)))
Window(nd, insh, c1, ks) ==
  LET n == Len(ks) dl == IntsA(nd, "dilations", Ones(n)) IN
  <<insh[1], c1>> \o [i \in 1..n |-> SpatialDim(nd, insh[i + 2], ((ks[i] - 1) * dl[i]) + 1, i, n)]
ReshapeTo(insh, tgt) ==
  LET z(i) == IF tgt[i] = 0 THEN insh[i] ELSE tgt[i]
      known == Prod([i \in 1..Len(tgt) |-> IF tgt[i] = -1 THEN 1 ELSE z(i)])
  IN [i \in 1..Len(tgt) |-> IF tgt[i] = -1 THEN Prod(insh) \div known ELSE z(i)]
ElemSet(s) == {s[i] : i \in 1..Len(s)}
PosAxes(axes, r) == {IF axes[i] < 0 THEN axes[i] + r ELSE axes[i] : i \in 1..Len(axes)}
SqueezeSh(sh, axes) ==
  LET drop == IF axes = <<>> THEN {i \in 0..(Len(sh) - 1) : sh[i + 1] = 1} ELSE PosAxes(axes, Len(sh))
      keep == [i \in 1..Len(sh) |-> IF (i - 1) \in drop THEN <<>> ELSE <<sh[i]>>]
  IN FoldLeft(LAMBDA a, b : a \o b, <<>>, keep)
UnsqueezeSh(sh, axes) ==
  LET r == Len(sh) + Len(axes) ax == PosAxes(axes, r)
      nth(i) == Cardinality({j \in 0..(i - 1) : j \notin ax})
  IN [i \in 1..r |-> IF (i - 1) \in ax THEN 1 ELSE sh[nth(i - 1) + 1]]
FlattenSh(sh, axis) == <<Prod(SubSeq(sh, 1, axis)), Prod(SubSeq(sh, axis + 1, Len(sh)))>>
PadSh(sh, p) == [i \in 1..Len(sh) |-> sh[i] + p[i] + p[i + Len(sh)]]
(* numpy broadcasting of two shapes *)
BcSh(a, b) == LET r == MaxOf(Len(a), Len(b))
                  g(s, i) == IF i + Len(s) - r >= 1 THEN s[i + Len(s) - r] ELSE 1
              IN [i \in 1..r |-> MaxOf(g(a, i), g(b, i))]

Identities == {"Relu", "Clip", "BatchNormalization", "LRN", "Softmax", "Identity", "Dropout", "Neg", "Abs", "LeakyRelu", "Sigmoid", "Tanh", "Cast", "Elu", "Exp", "Log", "Sqrt", "HardSigmoid", "LogSoftmax", "InstanceNormalization",
  "PRelu", "Selu", "Softplus", "Softsign", "Erf", "Ceil", "Floor", "Reciprocal", "Not", "Hardmax", "ThresholdedRelu", "Pow", "LpNormalization", "MeanVarianceNormalization",
  "Tile", "Expand", "ReduceMean", "relu", "Conv2D", "MaxPool2D", "CustomOp"}

NodeShape(nd, e, c) ==
  LET S(i) == e[nd.ins[i]] IN
  CASE nd.op = "Conv" -> Window(nd, S(1), S(2)[1], KernelOf(nd, S(2)))
    [] nd.op \in {"MaxPool", "AveragePool", "LpPool"} -> Window(nd, S(1), S(1)[2], IntsA(nd, "kernel_shape", <<>>))
    [] nd.op \in {"GlobalMaxPool", "GlobalAveragePool"} -> GlobalShape([sh |-> S(1)])
    [] nd.op = "Gemm" -> <<S(1)[IF IntA(nd, "transA", 0) = 1 THEN 2 ELSE 1], S(2)[IF IntA(nd, "transB", 0) = 1 THEN 1 ELSE 2]>>
    [] nd.op = "MatMul" -> SubSeq(S(1), 1, Len(S(1)) - 1) \o <<S(2)[Len(S(2))]>>
    [] nd.op \in {"Add", "Mul", "Sub", "Sum", "Max", "Min", "Div"} ->
         IF Len(nd.ins) = 1 THEN S(1) ELSE IF Len(nd.ins) = 2 THEN BcSh(S(1), S(2)) ELSE BcSh(BcSh(S(1), S(2)), S(3))
    [] nd.op = "Concat" -> LET a0 == IntA(nd, "axis", 1) a == (IF a0 < 0 THEN a0 + Len(S(1)) ELSE a0) + 1 IN [S(1) EXCEPT ![a] = Sum([i \in 1..Len(nd.ins) |-> S(i)[a]])]
    [] nd.op = "Pad" -> PadSh(S(1), IntsA(nd, "pads", <<>>))
    [] nd.op = "Transpose" -> LET r == Len(S(1)) p == IntsA(nd, "perm", [i \in 1..r |-> r - i]) IN [i \in 1..r |-> S(1)[p[i] + 1]]
    [] nd.op = "Reshape" -> ReshapeTo(S(1), c[nd.ins[2]].d)
    [] nd.op = "Flatten" -> FlattenSh(S(1), IntA(nd, "axis", 1))
    [] nd.op = "Squeeze" -> SqueezeSh(S(1), IntsA(nd, "axes", <<>>))
    [] nd.op = "Unsqueeze" -> UnsqueezeSh(S(1), IntsA(nd, "axes", <<>>))
    [] nd.op = "Shape" -> <<Len(S(1))>>
    [] nd.op = "Constant" -> Att(nd, "value").sh
    [] nd.op = "Gather" -> S(2) \o SubSeq(S(1), 2, Len(S(1)))
    [] nd.op \in Identities -> S(1)

(* ---- values ---- *)
ToExp(t, m) == IF t.x = m THEN t ELSE [t EXCEPT !.x = m, !.d = TLCEval([i \in 1..Len(t.d) |-> t.d[i] * Pow2(t.x - m)])]
RECURSIVE Lg(_)
Lg(n) == IF n = 1 THEN 0 ELSE 1 + Lg(n \div 2)
IsP2(n) == n >= 1 /\ Pow2(Lg(n)) = n
(* denominators that are powers of two become part of the exponent *)
Norm(t) ==
  IF t.q = <<>> \/ t.p # 4 \/ t.xs # <<>> \/ \E i \in 1..Len(t.q) : ~IsP2(t.q[i]) THEN t
  ELSE LET K == Lg(CHOOSE v \in ElemSet(t.q) : \A w \in ElemSet(t.q) : w <= v) IN
       [Mk(t.sh, TLCEval([i \in 1..Len(t.d) |-> t.d[i] * Pow2(K - Lg(t.q[i]))])) EXCEPT !.x = t.x - K]
MinX(ts) == LET xs == {ts[i].x : i \in 1..Len(ts)} IN CHOOSE v \in xs : \A w \in xs : v <= w
(* the index into a smaller operand of a numpy broadcast *)
RECURSIVE Unravel(_, _)
Unravel(k, sh) == IF sh = <<>> THEN <<>> ELSE Append(Unravel(k \div sh[Len(sh)], SubSeq(sh, 1, Len(sh) - 1)), k % sh[Len(sh)])
RECURSIVE Ravel(_, _)
Ravel(ix, sh) == IF sh = <<>> THEN 0 ELSE Ravel(SubSeq(ix, 1, Len(ix) - 1), SubSeq(sh, 1, Len(sh) - 1)) * sh[Len(sh)] + ix[Len(ix)]
Bc(t, sh) ==
  IF t.sh = sh THEN t
  ELSE LET r == Len(sh) o == r - Len(t.sh)
           El(k) == LET ix == Unravel(k, sh) IN
                    t.d[Ravel([i \in 1..Len(t.sh) |-> IF t.sh[i] = 1 THEN 0 ELSE ix[i + o]], t.sh) + 1]
       IN [t EXCEPT !.sh = sh, !.d = TLCEval([k \in 1..Prod(sh) |-> El(k - 1)])]
Elementwise(a, b, F(_,_)) ==
  LET sh == BcSh(a.sh, b.sh) m == MinOf(a.x, b.x)
      u == Bc(ToExp(a, m), sh) v == Bc(ToExp(b, m), sh)
  IN [Mk(sh, TLCEval([i \in 1..Prod(sh) |-> F(u.d[i], v.d[i])])) EXCEPT !.x = m]
AddBias(t, b) ==    \* per channel, or per column of a row
  LET m == MinOf(t.x, b.x) u == ToExp(t, m) v == ToExp(b, m) n == N4(t.sh) IN
  [u EXCEPT !.d = Build(n, LAMBDA bt, c, i, j : At(u, n, bt, c, i, j) + v.d[IF Len(t.sh) = 2 THEN j + 1 ELSE c + 1])]
TransposeT(t, perm) ==
  LET r == Len(t.sh) sh == [i \in 1..r |-> t.sh[perm[i] + 1]]
      El(k) == LET ix == Unravel(k, sh) IN
               t.d[Ravel([i \in 1..r |-> ix[CHOOSE j \in 1..r : perm[j] = i - 1]], t.sh) + 1]
  IN [t EXCEPT !.sh = sh, !.d = TLCEval([k \in 1..Prod(sh) |-> El(k - 1)])]
PadT(t, p, v) ==
  LET r == Len(t.sh) sh == PadSh(t.sh, p)
      El(k) == LET ix == Unravel(k, sh) IN
               IF \A i \in 1..r : ix[i] >= p[i] /\ ix[i] < p[i] + t.sh[i]
               THEN t.d[Ravel([i \in 1..r |-> ix[i] - p[i]], t.sh) + 1] ELSE v
  IN [t EXCEPT !.sh = sh, !.d = TLCEval([k \in 1..Prod(sh) |-> El(k - 1)])]
Scalar(nd, a) == LET v == Att(nd, a).v IN [Mk(<<1>>, <<v[1]>>) EXCEPT !.x = v[2]]
ClipV(nd, t) ==
  IF t.m = "o" THEN ClipT(t, Att(nd, "min").v[1], Att(nd, "max").v[1])
  ELSE LET lo == Scalar(nd, "min") hi == Scalar(nd, "max") m == MinX(<<t, lo, hi>>) IN
       ClipT(ToExp(t, m), ToExp(lo, m).d[1], ToExp(hi, m).d[1])
(* variance + epsilon has to be a power of four per channel; its root is 2^BnLg *)
BnLg(var, nd, c) ==
  LET eps == Scalar(nd, "epsilon") m == MinX(<<var, eps>>) s == ToExp(var, m).d[c] + ToExp(eps, m).d[1]
  IN IF s >= 1 /\ IsP2(s) /\ (Lg(s) + m) % 2 = 0 THEN (Lg(s) + m) \div 2 ELSE Assert(FALSE, <<"variance", s, m>>)
BatchNormV(nd, t, g, b, mean, var) ==
  LET m == MinX(<<t, mean>>) u == ToExp(t, m) v == ToExp(mean, m) n == N4(t.sh)
      lg == TLCEval([c \in 1..Len(g.d) |-> BnLg(var, nd, c)])
      K == CHOOSE k \in ElemSet(lg) : \A l \in ElemSet(lg) : l <= k
      x1 == MinOf(m + g.x - K, b.x)
      F(bt, c, i, j) == ((At(u, n, bt, c, i, j) - v.d[c + 1]) * g.d[c + 1] * Pow2((m + g.x - lg[c + 1]) - x1)) + (b.d[c + 1] * Pow2(b.x - x1))
  IN [Mk(t.sh, Build(n, F)) EXCEPT !.x = x1]
(* rows of t times the matrix w *)
MulMat(t, w, sh) ==
  LET x == w.sh[1] y == w.sh[2] IN
  [Mk(sh, TLCEval([i \in 1..Prod(sh) |->
     FoldFunction(LAMBDA u, v : u + v, 0, [j \in 1..x |-> w.d[((j - 1) * y) + ((i - 1) % y) + 1] * t.d[(((i - 1) \div y) * x) + j]])])) EXCEPT !.x = t.x + w.x]
CatT(ts) == LET m == MinX(ts) IN Concat([i \in 1..Len(ts) |-> ToExp(ts[i], m)])
View_(t, sh) == [t EXCEPT !.sh = sh]

NodeValue(nd, e) ==
  LET V(i) == e[nd.ins[i]]
      t == V(1)
      sh == NodeShape(nd, [id \in DOMAIN e |-> e[id].sh], e)
      n == Len(t.sh) - 2
      pads == IntsA(nd, "pads", Nulls(2 * n))
      strides == IntsA(nd, "strides", Ones(n))
  IN
  CASE nd.op = "Conv" -> LET c == Conv(t, V(2), <<>>, pads, strides, IntA(nd, "group", 1)) IN IF HasIn(nd, 3) THEN AddBias(c, V(3)) ELSE c
    [] nd.op = "MaxPool" -> MaxPool(t, IntsA(nd, "kernel_shape", <<>>), strides, pads)
    [] nd.op = "AveragePool" -> Norm(AvgPool(t, IntsA(nd, "kernel_shape", <<>>), strides, pads, IntA(nd, "count_include_pad", 0) = 1))
    [] nd.op = "GlobalMaxPool" -> GlobalMax(t)
    [] nd.op = "GlobalAveragePool" -> Norm(GlobalAvg(t))
    [] nd.op = "Gemm" ->
         LET w == IF IntA(nd, "transB", 0) = 1 THEN TransposeT(V(2), <<1, 0>>) ELSE V(2)
             u == IF IntA(nd, "transA", 0) = 1 THEN TransposeT(t, <<1, 0>>) ELSE t
             r == MulMat(u, w, sh) IN IF HasIn(nd, 3) THEN Elementwise(r, V(3), LAMBDA a, b : a + b) ELSE r
    [] nd.op = "MatMul" -> MulMat(t, V(2), sh)
    [] nd.op = "Relu" -> ReLU(t)
    [] nd.op = "Clip" -> ClipV(nd, t)
    [] nd.op = "BatchNormalization" -> BatchNormV(nd, t, V(2), V(3), V(4), V(5))
    [] nd.op = "LRN" -> Lrn(t, Att(nd, "alpha").v[1], Pow2(0 - Att(nd, "alpha").v[2]), Att(nd, "beta").v[1], IntA(nd, "size", 1), "onnx")
    [] nd.op = "Softmax" -> Softmax(t)
    [] nd.op = "Mul" -> IF Numel(V(2)) = 1 THEN [t EXCEPT !.x = @ + V(2).x, !.d = TLCEval([i \in 1..Len(t.d) |-> t.d[i] * V(2).d[1]])]
                        ELSE [Mk(sh, TLCEval([i \in 1..Prod(sh) |-> Bc(t, sh).d[i] * Bc(V(2), sh).d[i]])) EXCEPT !.x = t.x + V(2).x]
    [] nd.op \in {"Add", "Sum"} -> IF Len(nd.ins) = 2 THEN Elementwise(t, V(2), LAMBDA a, b : a + b)
                                  ELSE Elementwise(Elementwise(t, V(2), LAMBDA a, b : a + b), V(3), LAMBDA a, b : a + b)
    [] nd.op = "Sub" -> Elementwise(t, V(2), LAMBDA a, b : a - b)
    [] nd.op = "Max" -> Elementwise(t, V(2), LAMBDA a, b : MaxOf(a, b))
    [] nd.op = "Min" -> Elementwise(t, V(2), LAMBDA a, b : MinOf(a, b))
    [] nd.op = "Neg" -> With(t, TLCEval([i \in 1..Len(t.d) |-> 0 - t.d[i]]))
    [] nd.op = "Abs" -> With(t, TLCEval([i \in 1..Len(t.d) |-> AbsV(t.d[i])]))
    [] nd.op = "Concat" -> IF Len(t.sh) = 1 THEN Mk(sh, FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..Len(nd.ins) |-> V(i).d]))
                          ELSE CatT([i \in 1..Len(nd.ins) |-> V(i)])
    [] nd.op = "Pad" -> IF Att(nd, "value").t = "ord" THEN PadT(t, pads, Att(nd, "value").v[1]) ELSE LET v == Scalar(nd, "value") IN
                        IF v.d[1] = 0 THEN PadT(t, pads, 0) ELSE LET m == MinX(<<t, v>>) IN PadT(ToExp(t, m), pads, ToExp(v, m).d[1])
    [] nd.op = "Transpose" -> TransposeT(t, IntsA(nd, "perm", [i \in 1..Len(t.sh) |-> Len(t.sh) - i]))
    [] nd.op \in {"Reshape", "Flatten", "Squeeze", "Unsqueeze", "Identity", "Dropout", "Cast"} -> View_(t, sh)
    [] nd.op = "Shape" -> Mk(sh, t.sh)
    [] nd.op = "Constant" -> LET a == Att(nd, "value") IN Mk(a.sh, a.v)
    [] nd.op = "Gather" -> Mk(sh, TLCEval([i \in 1..Prod(sh) |-> t.d[V(2).d[i] + 1]]))
(* Constant and Shape-like nodes without a first tensor input are handled above; V(1) is
   evaluated lazily by TLC only where an operator needs it *)

Evaluable == {"Conv", "MaxPool", "AveragePool", "GlobalMaxPool", "GlobalAveragePool", "Gemm", "MatMul", "Relu", "Clip", "BatchNormalization", "LRN", "Softmax", "Mul", "Add", "Sum",
  "Sub", "Max", "Min", "Neg", "Abs", "Concat", "Pad", "Transpose", "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Identity", "Dropout", "Cast", "Shape", "Constant", "Gather"}

(* ---- the models the importer has to refuse (C29) ---- *)
RECURSIVE ShapesUpTo(_, _)
Consts0(M) == [id \in {M.inits[i].id : i \in 1..Len(M.inits)} |-> M.inits[CHOOSE i \in 1..Len(M.inits) : M.inits[i].id = id].t]
Shapes0(M) == [id \in {M.inp[i].id : i \in 1..Len(M.inp)} |-> M.inp[CHOOSE i \in 1..Len(M.inp) : M.inp[i].id = id].sh]
              @@ [id \in DOMAIN Consts0(M) |-> Consts0(M)[id].sh]
(* names known at import time: initializers, and what is computed from them and from shapes *)
IsConstNode(nd, c) == nd.op \in {"Constant", "Shape"} \/ (nd.op \in {"Gather", "Concat", "Unsqueeze", "Squeeze", "Cast"} /\ \A i \in 1..Len(nd.ins) : nd.ins[i] \in DOMAIN c)
ShapesUpTo(M, k) ==     \* [s: shapes, c: constants] after k nodes
  IF k = 0 THEN [s |-> Shapes0(M), c |-> Consts0(M)]
  ELSE LET p == ShapesUpTo(M, k - 1) nd == M.nodes[k]
           sh == NodeShape(nd, p.s, p.c)
           o == nd.outs[1]
       IN [s |-> (o :> sh) @@ p.s,
           c |-> IF IsConstNode(nd, p.c)
                 THEN (o :> NodeValue(nd, p.c @@ [id \in DOMAIN p.s \ DOMAIN p.c |-> Mk(p.s[id], <<>>)])) @@ p.c ELSE p.c]
Static(M) == ShapesUpTo(M, Len(M.nodes))

NodeRefused(M, st, nd) ==
  LET sh(i) == st.s[nd.ins[i]] IN
  CASE nd.op = "Conv" -> \/ \E k \in ElemSet(KernelOf(nd, sh(2))) : k % 2 = 0
                         \/ \E d \in ElemSet(IntsA(nd, "dilations", <<>>)) : d # 1
                         \/ StrA(nd, "auto_pad", "NOTSET") \in {"SAME_UPPER", "SAME_LOWER"}
    [] nd.op \in {"MaxPool", "AveragePool"} ->
                         \/ IntA(nd, "ceil_mode", 0) = 1
                         \/ StrA(nd, "auto_pad", "NOTSET") \in {"SAME_UPPER", "SAME_LOWER"}
                         \/ \E d \in ElemSet(IntsA(nd, "dilations", <<>>)) : d # 1
    [] nd.op = "Gemm" -> \/ IntA(nd, "transA", 0) = 1
                         \/ IntA(nd, "transB", 0) # 1
                         \/ \E a \in {"alpha", "beta"} : Has(nd, a) /\ Att(nd, a).v # <<1, 0>>
    [] nd.op = "Concat" -> IntA(nd, "axis", 1) \notin {1, 1 - Len(sh(1))} /\ ~(nd.outs[1] \in DOMAIN st.c)
    [] nd.op = "Pad" -> StrA(nd, "mode", "constant") # "constant"
    [] nd.op = "Mul" -> Prod(sh(2)) # 1 /\ Prod(sh(1)) # 1
    [] nd.op = "Add" -> Prod(sh(1)) # Prod(BcSh(sh(1), sh(2))) \/ Prod(sh(2)) # Prod(BcSh(sh(1), sh(2)))
    [] nd.op = "Softmax" -> LET a == IntA(nd, "axis", 1) IN Prod(SubSeq(sh(1), 1, IF a < 0 THEN a + Len(sh(1)) ELSE a)) # 1
    [] nd.op = "LRN" -> Has(nd, "bias") /\ Att(nd, "bias").v # <<1, 0>>
    [] OTHER -> FALSE
MustRefuse(M, st) ==
  \/ Len(M.inp) > 1 \/ Len(M.outs) > 1
  \/ \E i \in 1..Len(M.inp) : Len(M.inp[i].sh) >= 5 \/ (Len(M.inp[i].sh) >= 3 /\ M.inp[i].sh[1] # 1)
  \/ \E k \in 1..Len(M.nodes) : NodeRefused(M, st, M.nodes[k])
Verdict(M, st) == IF MustRefuse(M, st) \/ \E k \in 1..Len(M.nodes) : M.nodes[k].op \notin Evaluable THEN "refuse" ELSE M.cls

(* ---- the machine ---- *)
(* tree: what ./generated_code holds, a model per network name: 0 the scenario's model, k > 0 the k-th of
   the others that are imported in the same working directory *)
VARIABLES key, sc, pc, inst, env, nx, log, tree
vars == <<key, sc, pc, inst, env, nx, log, tree>>
EmptyF == [x \in {} |-> 0]
NoSc == [m |-> <<>>, hist |-> <<>>, st |-> <<>>, v |-> "", others |-> <<>>]

(* history steps *)
HNew(i)      == [op |-> "create", i |-> i, gen |-> Const(0)]
HLoad(i)     == [op |-> "load", i |-> i, gen |-> Const(0)]
HRun(i, g)   == [op |-> "run", i |-> i, gen |-> g]
HDel(i)      == [op |-> "destroy", i |-> i, gen |-> Const(0)]
(* the command line import of a file dir/stem.ext, where ext may hold further dots; batch tells what the
   file says about the batch dimension.  The k-th other model, or the scenario's (0). *)
HImp(dir, stem, ext, batch, k) == [op |-> "import", i |-> k, gen |-> Const(0), dir |-> dir, stem |-> stem, ext |-> ext, batch |-> batch]
(* a stand-alone program: a process of its own that loads the weights, runs once (reference_input) or
   several times (dummy_input) and ends.  files tells what is wrong with its files; the reference
   output differs from the model's by del * 2^-11 in element el. *)
HMain(prog, g, files, el, del) == [op |-> "main", i |-> 0, gen |-> g, prog |-> prog, files |-> files, el |-> el, del |-> del]
Usual(g1, g2) == <<HNew(1), HLoad(1), HRun(1, g1), HRun(1, g2), HDel(1)>>

Params(M) ==      \* the parameters in the order of first use
  LET uses == FoldLeft(LAMBDA a, b : a \o b, <<>>, [k \in 1..Len(M.nodes) |->
                 IF M.nodes[k].op \in {"Reshape", "Mul"} THEN <<>> ELSE M.nodes[k].ins])
      c == Consts0(M)
      keep(k) == uses[k] \in DOMAIN c /\ \A j \in 1..(k - 1) : uses[j] # uses[k]
  IN FoldLeft(LAMBDA a, b : a \o b, <<>>, [k \in 1..Len(uses) |-> IF keep(k) THEN <<c[uses[k]]>> ELSE <<>>])

Tolerate(t) == IF t.m # "i" THEN t ELSE IF t.q = <<>> /\ t.xs = <<>> THEN [t EXCEPT !.t = 2, !.a = 10000]
               ELSE [t EXCEPT !.t = MaxOf(@, 100)]

Init == key \in Keys /\ sc = NoSc /\ pc = 0 /\ inst = EmptyF /\ env = EmptyF /\ nx = 0 /\ log = <<>> /\ tree = EmptyF
OtherModels(c) == IF "others" \in DOMAIN c THEN [i \in 1..Len(c.others) |-> LET st == TLCEval(Static(c.others[i])) IN
                                                                        [m |-> c.others[i], st |-> st, v |-> Verdict(c.others[i], st)]] ELSE <<>>
Pick == /\ pc = 0 /\ \E c \in Cases(key) : LET M == TLCEval(c.m) st == TLCEval(Static(M)) IN
              sc' = [m |-> M, hist |-> TLCEval(c.hist), st |-> st, v |-> TLCEval(Verdict(M, st)), others |-> TLCEval(OtherModels(c))]
              /\ tree' = IF \E i \in 1..Len(c.hist) : c.hist[i].op = "import" THEN EmptyF ELSE (M.nm :> 0)
        /\ pc' = 1
        /\ UNCHANGED <<key, inst, env, nx, log>>
Act == sc.hist[pc]
Running == pc >= 1 /\ pc <= Len(sc.hist) /\ sc.v # "refuse"
Logs(e) == log' = Append(log, e) /\ pc' = pc + 1 /\ UNCHANGED <<key, sc>>
Done(e) == Logs(e) /\ UNCHANGED tree
(* an import replaces the network of that name and leaves the others alone; a refused model produces none *)
Import == /\ Running /\ Act.op = "import"
          /\ tree' = IF Act.i > 0 /\ sc.others[Act.i].v = "refuse" THEN tree ELSE (Act.stem :> Act.i) @@ tree
          /\ Logs(<<>>) /\ UNCHANGED <<inst, env, nx>>
Create == /\ Running /\ Act.op = "create" /\ inst' = (Act.i :> "new") @@ inst
          /\ Done(<<>>) /\ UNCHANGED <<env, nx>>
Load == /\ Running /\ Act.op = "load" /\ inst' = [inst EXCEPT ![Act.i] = "loaded"]
        /\ Done(<<>>) /\ UNCHANGED <<env, nx>>
Destroy == /\ Running /\ Act.op = "destroy" /\ inst' = [i \in DOMAIN inst \ {Act.i} |-> inst[i]]
           /\ Done(<<>>) /\ UNCHANGED <<env, nx>>
Runs == Act.op \in {"run", "main"}
RunStart == /\ Running /\ Runs /\ nx = 0
            /\ env' = (sc.m.inp[1].id :> Fill(Zeros(sc.m.inp[1].sh), Act.gen)) @@ Consts0(sc.m)
            /\ nx' = 1 /\ UNCHANGED <<key, sc, pc, inst, log, tree>>
RunNode == /\ Running /\ Runs /\ nx >= 1 /\ nx <= Len(sc.m.nodes)
           /\ env' = (sc.m.nodes[nx].outs[1] :> NodeValue(sc.m.nodes[nx], env)) @@ env
           /\ nx' = nx + 1 /\ UNCHANGED <<key, sc, pc, inst, log, tree>>
RunEnd == /\ Running /\ Act.op = "run" /\ nx = Len(sc.m.nodes) + 1
          /\ Done(<<[inp |-> env[sc.m.inp[1].id], out |-> Tolerate(env[sc.m.outs[1]])]>>)
          /\ env' = EmptyF /\ nx' = 0 /\ UNCHANGED inst
(* the program compares with a tolerance of 0.001: |del| * 2^-11 <= 0.001 *)
(* or the reference's element is no number: del 1000000, 1000001, 1000002 put NaN, +inf, -inf there, with which nothing finite agrees *)
Special(del) == CASE del = 1000000 -> "nan" [] del = 1000001 -> "inf" [] del = 1000002 -> "-inf" [] OTHER -> ""
Reference(out) == LET u == ToExp(out, -11) IN IF Special(Act.del) # "" THEN u ELSE [u EXCEPT !.d[Act.el] = @ + Act.del]
MainVerdict == IF Act.files \notin {"ok", "longpaths"} THEN "fail" ELSE IF Act.prog = "reference_input" /\ (Act.del > 2 \/ Act.del < -2) THEN "differ" ELSE "agree"
MainEnd == /\ Running /\ Act.op = "main" /\ nx = Len(sc.m.nodes) + 1
           /\ Done(<<[inp |-> env[sc.m.inp[1].id], ref |-> IF Act.prog = "reference_input" THEN Reference(env[sc.m.outs[1]]) ELSE Zeros(<<1>>), sp |-> Special(Act.del), verdict |-> MainVerdict]>>)
           /\ env' = EmptyF /\ nx' = 0 /\ UNCHANGED inst
Record == [key |-> key, model |-> sc.m, verdict |-> sc.v, shapes |-> sc.st.s, consts |-> DOMAIN sc.st.c,
           params |-> Params(sc.m), hist |-> sc.hist, log |-> log, tree |-> tree,
           others |-> [i \in 1..Len(sc.others) |-> [model |-> sc.others[i].m, verdict |-> sc.others[i].v, shapes |-> sc.others[i].st.s, consts |-> DOMAIN sc.others[i].st.c]]]
Finish == /\ pc >= 1 /\ (pc = Len(sc.hist) + 1 \/ sc.v = "refuse")
          /\ Emit => PrintT(ToJson(Record))
          /\ pc' = -1 /\ sc' = NoSc /\ inst' = EmptyF /\ env' = EmptyF /\ nx' = 0 /\ log' = <<>> /\ tree' = EmptyF /\ UNCHANGED key
Next == Pick \/ Import \/ Create \/ Load \/ Destroy \/ RunStart \/ RunNode \/ RunEnd \/ MainEnd \/ Finish
Spec == Init /\ [][Next]_vars
View == <<key, sc, pc, nx>>

(* ---- properties of the model ---- *)
TypeOK == \A id \in DOMAIN env : Len(env[id].d) = Prod(env[id].sh)
(* computed values have the statically inferred shapes *)
ShapesAgree == (pc >= 1 /\ nx > 0) => LET s == sc.st.s IN \A id \in DOMAIN env : env[id].sh = s[id]
(* the arithmetic of the scenario is exact in single precision *)
Exact == \A id \in DOMAIN env : \A i \in 1..Len(env[id].d) : env[id].d[i] < 16777217 /\ env[id].d[i] > -16777217
(* scenarios are well-formed graphs: a name is given to one value only, and before it is read *)
WellFormed == (pc = 1) =>
  LET M == sc.m
      given == [i \in 1..Len(M.inp) |-> M.inp[i].id] \o [i \in 1..Len(M.inits) |-> M.inits[i].id] \o FoldLeft(LAMBDA a, b : a \o b, <<>>, [k \in 1..Len(M.nodes) |-> M.nodes[k].outs])
      known(k) == ElemSet(given) \ UNION {ElemSet(M.nodes[j].outs) : j \in k..Len(M.nodes)}
  IN /\ Cardinality(ElemSet(given)) = Len(given)
     /\ \A k \in 1..Len(M.nodes) : ElemSet(M.nodes[k].ins) \ {""} \subseteq known(k)
     /\ ElemSet(M.outs) \subseteq ElemSet(given)
(* a graph assigns every value once, and a node changes nothing but its result *)
SingleAssignment == [][(nx >= 1 /\ nx' = nx + 1) => \A id \in DOMAIN env : id \in DOMAIN env' /\ env'[id] = env[id]]_vars
(* instances are loaded before they run, and every instance ends destroyed *)
HistoryOK == /\ (pc >= 1 /\ pc <= Len(sc.hist) /\ Act.op \in {"load", "run", "destroy"} /\ sc.v # "refuse") =>
                  /\ Act.i \in DOMAIN inst
                  /\ Act.op = "run" => inst[Act.i] = "loaded"
             /\ (pc >= 1 /\ pc <= Len(sc.hist) /\ Act.op # "import" /\ sc.v # "refuse") => tree[sc.m.nm] = 0
             /\ (pc >= 1 /\ pc = Len(sc.hist) + 1) => DOMAIN inst = {}
(* the same input gives the same output, whatever happened before *)
Reproducible == \A i, j \in 1..Len(log) : (sc.hist[i].op = "run" /\ sc.hist[j].op = "run" /\ sc.hist[i].gen = sc.hist[j].gen)
                                            => log[i] = log[j]
(* an import touches one network *)
OneAtATime == [][\A n \in DOMAIN tree : pc >= 1 /\ pc' > pc => n \in DOMAIN tree' /\ (tree'[n] = tree[n] \/ (Act.op = "import" /\ n = Act.stem))]_vars
=============================================================================
