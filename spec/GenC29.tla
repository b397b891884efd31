------------------------------- MODULE GenC29 -------------------------------
(* C29: a model the library cannot represent is refused *)
EXTENDS PicoModels
S0(a, b) == (Seed * 2749) + (a * 127) + b
Q == Tier = 0
X4 == <<1, 2, 6, 6>>
X3 == <<1, 2, 8>>
Wt(sh) == InitF("w", sh, H(Seed, -3, 3))
(* the fields of an item: input shape, initializers, nodes from x to y *)
It(insh, inits, nodes) == [sh |-> insh, it |-> inits, nd |-> nodes]
OneI(insh, op, at) == It(insh, <<>>, <<Nd("op", op, <<"x">>, <<"y">>, at)>>)
ConvI(insh, wsh, b, at) == It(insh, <<Wt(wsh)>> \o (IF b THEN <<InitF("b", <<wsh[1]>>, H(3, -9, 9))>> ELSE <<>>), <<Nd("c", "Conv", IF b THEN <<"x", "w", "b">> ELSE <<"x", "w">>, <<"y">>, at)>>)
KS(k) == <<AI("kernel_shape", k)>>
StA(n) == <<AI("strides", Ones(n))>>
Gr(g) == <<A1("group", g)>>

EvenKernels ==
  {ConvI(X4, <<2, 2>> \o k, b, Gr(1) \o KS(k) \o StA(2)) : k \in {<<2, 2>>, <<2, 3>>, <<3, 2>>, <<4, 1>>, <<1, 2>>, <<6, 6>>, <<5, 4>>}, b \in BOOLEAN}
  \cup {ConvI(X4, <<2, 1>> \o k, FALSE, Gr(2) \o KS(k) \o <<AI("pads", <<1, 1, 1, 1>>)>> \o StA(2)) : k \in {<<2, 2>>, <<1, 4>>}}
  \cup {ConvI(X3, <<2, 2, k>>, b, Gr(1) \o KS(<<k>>) \o StA(1)) : k \in {2, 4, 6, 8}, b \in BOOLEAN}
  \cup {ConvI(X4, <<2, 2, 2, 2>>, FALSE, StA(2))}          \* the kernel's shape only known from the weights
Dilated ==
  {ConvI(X4, <<2, 2, 3, 3>>, b, <<AI("dilations", d)>> \o Gr(1) \o KS(<<3, 3>>) \o StA(2)) : d \in {<<2, 2>>, <<1, 2>>, <<2, 1>>}, b \in BOOLEAN}
  \cup {ConvI(X4, <<2, 2, 1, 3>>, FALSE, <<AI("dilations", d)>> \o Gr(1) \o KS(<<1, 3>>) \o StA(2)) : d \in {<<1, 2>>}}
  \cup {ConvI(X3, <<2, 2, 3>>, FALSE, <<AI("dilations", d)>> \o Gr(1) \o KS(<<3>>) \o StA(1)) : d \in {<<2>>, <<3>>}}
  \cup {OneI(X4, "MaxPool", <<AI("dilations", d)>> \o KS(<<2, 2>>) \o StA(2)) : d \in {<<2, 2>>, <<1, 2>>, <<2, 1>>}}
  \cup {OneI(X3, "MaxPool", <<AI("dilations", <<2>>)>> \o KS(<<2>>) \o StA(1))}
AutoPad ==
  {ConvI(X4, <<2, 2, 3, 3>>, FALSE, <<AS("auto_pad", a)>> \o Gr(1) \o KS(<<3, 3>>) \o <<AI("strides", s)>>) : a \in {"SAME_UPPER", "SAME_LOWER"}, s \in {<<1, 1>>, <<2, 2>>}}
  \cup {ConvI(X3, <<2, 2, 3>>, FALSE, <<AS("auto_pad", a)>> \o Gr(1) \o KS(<<3>>) \o StA(1)) : a \in {"SAME_UPPER", "SAME_LOWER"}}
  \cup {OneI(X4, op, <<AS("auto_pad", a)>> \o KS(k) \o <<AI("strides", s)>>) : op \in {"MaxPool", "AveragePool"}, a \in {"SAME_UPPER", "SAME_LOWER"}, k \in {<<2, 2>>, <<3, 3>>}, s \in {<<1, 1>>, <<2, 2>>}}
  \cup {OneI(X3, op, <<AS("auto_pad", a)>> \o KS(<<2>>) \o StA(1)) : op \in {"MaxPool", "AveragePool"}, a \in {"SAME_UPPER", "SAME_LOWER"}}
Ceiling ==
  {OneI(X4, op, <<A1("ceil_mode", 1)>> \o KS(k) \o Opt_("pads", p) \o <<AI("strides", s)>>) : op \in {"MaxPool", "AveragePool"}, k \in {<<3, 3>>, <<2, 1>>}, s \in {<<2, 2>>, <<1, 1>>}, p \in {<<>>, <<0, 1, 0, 0>>}}
  \cup {OneI(X3, op, <<A1("ceil_mode", 1)>> \o KS(<<3>>) \o <<AI("pads", p)>> \o <<AI("strides", <<2>>)>>) : op \in {"MaxPool", "AveragePool"}, p \in {<<0, 0>>, <<1, 1>>}}
GemmI(n, m, at, b) == It(<<n, m>>, <<InitF("w", <<4, 4>>, H(Seed, -3, 3))>> \o (IF b THEN <<InitF("b", <<4>>, H(4, -9, 9))>> ELSE <<>>),
                        <<Nd("g", "Gemm", IF b THEN <<"x", "w", "b">> ELSE <<"x", "w">>, <<"y">>, at)>>)
Gemms ==
  {GemmI(1, 4, at, b) : at \in {<<>>, <<A1("transB", 0)>>, <<AF("alpha", 1, 0), AF("beta", 1, 0)>>, <<AF("alpha", 1, 0), AF("beta", 1, 0), A1("transA", 0), A1("transB", 0)>>}, b \in BOOLEAN}
  \cup {GemmI(4, 1, <<A1("transA", 1), A1("transB", 1)>>, b) : b \in BOOLEAN}
  \cup {GemmI(4, 4, <<A1("transA", 1), A1("transB", 1)>>, FALSE), GemmI(4, 1, <<A1("transA", 1)>>, FALSE)}
  \cup {GemmI(1, 4, <<AF(a, v[1], v[2]), A1("transB", 1)>>, TRUE) : a \in {"alpha", "beta"}, v \in {<<1, 1>>, <<0, 0>>, <<-1, 0>>, <<1, -1>>, <<3, -1>>, <<1048577, -20>>, <<1048575, -20>>}}
  \cup {GemmI(1, 4, <<AF("alpha", v[1], v[2]), AF("beta", 1, 0), A1("transB", 1)>>, b) : v \in {<<1, 1>>, <<1, -1>>}, b \in BOOLEAN}
CatI(sh, a, n) == It(sh, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("k", "Concat", IF n = 2 THEN <<"x", "h">> ELSE <<"h", "x", "h">>, <<"y">>, <<A1("axis", a)>>)>>)
Concats == {CatI(X4, a, n) : a \in {0, 2, 3, -1, -2, -4}, n \in 2..3} \cup {CatI(X3, a, 2) : a \in {0, 2, -1}} \cup {CatI(<<1, 5>>, a, n) : a \in {0, -2}, n \in 2..3} \cup {CatI(<<1, 1>>, 0, 2)}
PadsI == {OneI(X4, "Pad", <<AS("mode", m), AI("pads", <<0, 0, 1, 1, 0, 0, 1, 2>>), AF("value", 0, 0)>>) : m \in {"reflect", "edge", "wrap"}}
  \cup {OneI(X3, "Pad", <<AS("mode", m), AI("pads", <<0, 0, 1, 0, 0, 2>>), AF("value", 0, 0)>>) : m \in {"reflect", "edge"}}
  \cup {OneI(<<1, 5>>, "Pad", <<AS("mode", m), AI("pads", <<0, 1, 0, 1>>), AF("value", 0, 0)>>) : m \in {"reflect", "edge"}}
MulI(sh, fsh) == It(sh, <<InitF("f", fsh, H(5, -3, 3))>>, <<Nd("m", "Mul", <<"x", "f">>, <<"y">>, <<>>)>>)
Muls == {MulI(X4, f) : f \in {<<2, 1, 1>>, <<1, 2, 1, 1>>, <<6>>, <<6, 6>>, <<1, 2, 6, 6>>, <<6, 1>>}} \cup {MulI(X3, f) : f \in {<<8>>, <<2, 1>>, <<1, 2, 8>>}} \cup {MulI(<<1, 5>>, f) : f \in {<<5>>, <<1, 5>>}}
  \cup {It(sh, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("m", "Mul", o, <<"y">>, <<>>)>>) : sh \in {X4, X3, <<1, 5>>}, o \in {<<"x", "h">>, <<"h", "x">>, <<"x", "x">>}}
AddI(sh, csh, first) == It(sh, <<InitF("c", csh, H(6, -9, 9))>>, <<Nd("a", "Add", IF first THEN <<"c", "x">> ELSE <<"x", "c">>, <<"y">>, <<>>)>>)
Adds == {AddI(X4, c, f) : c \in {<<6>>, <<2, 1, 1>>, <<1, 2, 1, 1>>, <<1>>, <<6, 6>>, <<>>}, f \in BOOLEAN} \cup {AddI(X3, c, FALSE) : c \in {<<8>>, <<2, 1>>, <<1>>}}
  \cup {AddI(<<1, 5>>, <<1>>, f) : f \in BOOLEAN} \cup {AddI(<<1, 5>>, <<>>, FALSE), AddI(<<3, 5>>, <<5>>, FALSE), AddI(<<1, 1>>, <<5>>, FALSE)}
  (* data of different sizes *)
  \cup {It(X4, <<>>, <<Nd("p", op, <<"x">>, <<"h">>, <<>>), Nd("a", "Add", o, <<"y">>, <<>>)>>) : op \in {"GlobalMaxPool", "GlobalAveragePool"}, o \in {<<"x", "h">>, <<"h", "x">>}}
  \cup {It(<<1, 5>>, <<Wt(<<1, 5>>)>>, <<GemmN("g", "x", "w", "", "h"), Nd("a", "Add", o, <<"y">>, <<>>)>>) : o \in {<<"x", "h">>, <<"h", "x">>}}
Softs == {OneI(<<r, 4>>, "Softmax", at) : r \in {2, 3}, at \in {<<>>, <<A1("axis", 1)>>, <<A1("axis", -1)>>}}
  \cup {OneI(X4, "Softmax", <<A1("axis", a)>>) : a \in {2, 3, -1}} \cup {OneI(X3, "Softmax", <<A1("axis", a)>>) : a \in {2, -1}}
Lrns == {OneI(X4, "LRN", <<AF("alpha", 1, -3), AF("beta", 3, -2), AF("bias", v[1], v[2]), A1("size", n)>>) : v \in {<<2, 0>>, <<0, 0>>, <<1, -1>>, <<-1, 0>>, <<1048577, -20>>}, n \in {1, 3}}
UnknownOps == {"LeakyRelu", "Sigmoid", "Tanh", "Elu", "Exp", "Log", "Sqrt", "HardSigmoid", "LogSoftmax", "InstanceNormalization", "PRelu", "Selu", "Softplus", "Softsign", "Erf", "Ceil",
               "Floor", "Reciprocal", "Not", "Hardmax", "ThresholdedRelu", "Pow", "LpNormalization", "MeanVarianceNormalization", "Tile", "Expand", "ReduceMean", "relu", "Conv2D", "MaxPool2D", "CustomOp"}
Unknown == {OneI(sh, op, <<>>) : op \in UnknownOps, sh \in {X4, <<1, 5>>}} \cup {OneI(X4, "LpPool", KS(<<2, 2>>) \o StA(2))}
  \cup {It(<<1, 5>>, <<InitF("s", <<5>>, H(7, -3, 3))>>, <<Nd("o", op, <<"x", "s">>, <<"y">>, <<>>)>>) : op \in {"PRelu", "Pow"}}
  \cup {It(<<1, 5>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("o", "Div", <<"x", "h">>, <<"y">>, <<>>)>>)}

(* ---- the item in different surroundings ---- *)
ItemM(it) == Mdl(it.sh, it.it, it.nd, "y", "accept")
Wrapped(it, w, s) == LET M == ItemM(it) A == IF w % 2 = 1 THEN After(M) ELSE M IN IF w >= 2 THEN Before(A) ELSE A
(* inside a network: a convolution or a dense layer in front, a dense layer behind *)
Inside(it, s) ==
  LET S(q) == [i \in 1..Len(q) |-> IF q[i] = "x" THEN "pre" ELSE q[i]]
      r == Len(it.sh)
      front == CASE r = 4 -> <<Nd("c0", "Conv", <<"x", "w0">>, <<"pre">>, <<A1("group", 1), AI("kernel_shape", <<1, 1>>), AI("strides", <<1, 1>>)>>)>>
                 [] r = 3 -> <<Nd("c0", "Conv", <<"x", "w0">>, <<"pre">>, <<A1("group", 1), AI("kernel_shape", <<3>>), AI("pads", <<1, 1>>), AI("strides", <<1>>)>>)>>
                 [] OTHER -> <<Nd("c0", "Relu", <<"x">>, <<"pre">>, <<>>)>>
      w0 == CASE r = 4 -> <<InitF("w0", <<2, 2, 1, 1>>, H(8, -2, 2))>> [] r = 3 -> <<InitF("w0", <<2, 2, 3>>, H(8, -2, 2))>> [] OTHER -> <<>>
      M == Final(Mdl(it.sh, w0 \o it.it, front \o [i \in 1..Len(it.nd) |-> [it.nd[i] EXCEPT !.ins = S(@)]], "y", "accept"))
      osh == LastSh(M)
  IN IF osh[1] # 1 THEN M
     ELSE [M EXCEPT !.inits = Append(@, InitF("wz", <<3, osh[2]>>, H(9, -2, 2))), !.nodes = Append(@, GemmN("gz", M.outs[1], "wz", "", "z")), !.outs = <<"z">>]
Item(it, s) == {Bare(Wrapped(it, w, s), S0(1, s + w)) : w \in 0..3} \cup {Bare(Inside(it, s), S0(2, s))}
Items(set) == UNION {Item(it, Len(it.nd) + Len(it.it)) : it \in set}

(* ---- a supported node of the kind first, the unsupported one second ---- *)
Second ==
  {Bare(Mdl(X4, <<Wt(<<2, 2, 3, 3>>), InitF("v", <<2, 2>> \o k, H(3, -3, 3))>>,
     <<Nd("c1", "Conv", <<"x", "w">>, <<"h">>, Gr(1) \o KS(<<3, 3>>) \o <<AI("pads", <<1, 1, 1, 1>>)>> \o StA(2)), Nd("c2", "Conv", <<"h", "v">>, <<"y">>, d \o Gr(1) \o KS(k) \o StA(2))>>, "y", "accept"), k[1])
      : d \in {<<>>, <<AI("dilations", <<2, 2>>)>>}, k \in {<<2, 2>>, <<3, 2>>}}
  \cup {Bare(Mdl(X4, <<>>, <<Nd("p1", op, <<"x">>, <<"h">>, KS(<<2, 2>>) \o StA(2)), Nd("p2", op, <<"h">>, <<"y">>, <<A1("ceil_mode", 1)>> \o KS(<<2, 2>>) \o <<AI("strides", <<2, 2>>)>>)>>, "y", "accept"), 2) : op \in {"MaxPool", "AveragePool"}}
  \cup {Bare(Mdl(<<1, 4>>, <<Wt(<<4, 4>>)>>, <<GemmN("g1", "x", "w", "", "h"), Nd("g2", "Gemm", <<"h", "w">>, <<"y">>, at)>>, "y", "accept"), Len(at)) : at \in {<<>>, <<AF("alpha", 1, 1), A1("transB", 1)>>}}
  \cup {Bare(Mdl(<<1, 4>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("k1", "Concat", <<"x", "h">>, <<"k">>, <<A1("axis", 1)>>), Nd("k2", "Concat", <<"k", "k">>, <<"y">>, <<A1("axis", 0)>>)>>, "y", "accept"), 1)}

(* ---- inputs and outputs ---- *)
TwoIn(sh, op) == [Mdl(sh, <<>>, <<Nd("a", op, <<"x", "x2">>, <<"y">>, IF op = "Concat" THEN <<A1("axis", 1)>> ELSE <<>>)>>, "y", "accept") EXCEPT !.inp = Append(@, In1("x2", sh))]
TwoOut(sh, o) == [Mdl(sh, <<InitS("f", -1, 0)>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("m", "Mul", <<"x", "f">>, <<"y">>, <<>>)>>, "y", "accept") EXCEPT !.outs = o]
InOut ==
  {Bare(TwoIn(sh, op), Len(sh)) : sh \in {<<1, 4>>, X4, X3}, op \in {"Add", "Concat"}}
  \* an input nobody reads
  \cup {Bare([Mdl(<<1, 4>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"y">>, <<>>)>>, "y", "accept") EXCEPT !.inp = Append(@, In1("x2", <<1, 4>>))], 1)}
  \cup {Sc(TwoOut(<<1, 4>>, o), Usual(G(1), G(2))) : o \in {<<"h", "y">>, <<"y", "h">>}}
  \cup {Bare(Mdl(<<n>> \o sp, <<>>, <<Nd("r", "Relu", <<"x">>, <<"y">>, <<>>)>>, "y", "accept"), n) : n \in {2, 3, 4}, sp \in {<<2, 3>>, <<1, 1>>, <<2, 3, 2>>, <<1, 1, 1>>}}
  \cup {Bare(Mdl(<<2, 2, 3, 2>>, <<Wt(<<2, 2, 1, 1>>)>>, <<Nd("c", "Conv", <<"x", "w">>, <<"y">>, Gr(1) \o KS(<<1, 1>>) \o StA(2))>>, "y", "accept"), 1)}
  \cup {Bare(Mdl(<<1, 2, 3, 2, 2>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"y">>, <<>>)>>, "y", "accept"), 5)}

(* ---- close neighbours which are fine: refusing them would be as wrong, or at least computing them wrongly ---- *)
Fine ==
  {ConvI(X4, <<2, 2>> \o k, b, <<AI("dilations", <<1, 1>>)>> \o Gr(1) \o KS(k) \o StA(2)) : k \in {<<1, 1>>, <<3, 3>>, <<5, 1>>}, b \in BOOLEAN}
  \cup {GemmI(1, 4, <<AF("alpha", 1, 0), AF("beta", 1, 0), A1("transA", 0), A1("transB", 1)>>, b) : b \in BOOLEAN}
  \cup {CatI(X4, 1, n) : n \in 2..3} \cup {CatI(<<1, 5>>, 1, 2)}
  \cup {OneI(X4, "Pad", <<AS("mode", "constant"), AI("pads", <<0, 0, 1, 1, 0, 0, 1, 2>>), AF("value", 0, 0)>>)}
  \cup {MulI(X4, <<1>>), MulI(<<1, 5>>, <<>>), AddI(<<1, 5>>, <<5>>, FALSE), AddI(<<1, 1>>, <<1>>, FALSE)}
  \cup {OneI(<<1, 4>>, "Relu", <<>>), OneI(<<3, 4>>, "Relu", <<>>)}
  \cup {OneI(X4, "LRN", <<AF("alpha", 1, -3), AF("beta", 3, -2), AF("bias", 1, 0), A1("size", 3)>>)}
  \cup {OneI(X4, op, KS(<<3, 3>>) \o <<AI("strides", <<2, 2>>)>>) : op \in {"MaxPool"}}
FineMay ==
  {CatI(X4, -3, 2), CatI(<<1, 5>>, -1, 2), CatI(X3, -2, 2), OneI(X4, "MaxPool", <<A1("ceil_mode", 0)>> \o KS(<<2, 2>>) \o StA(2)), OneI(X4, "AveragePool", <<A1("ceil_mode", 0), A1("count_include_pad", 1)>> \o KS(<<2, 2>>) \o StA(2)),
   OneI(X4, "MaxPool", <<AI("dilations", <<1, 1>>)>> \o KS(<<2, 2>>) \o StA(2)), MulI(<<1, 1>>, <<1>>)}
(* a result nobody reads, beside the ones that count *)
MayM ==
  {Mdl(X4, <<>>, <<Nd("p", "MaxPool", <<"x">>, <<"y", "idx">>, KS(<<2, 2>>) \o StA(2))>>, "y", "may"),
   Mdl(<<1, 4>>, <<>>, <<Nd("p", "Dropout", <<"x">>, <<"y", "mask">>, <<>>)>>, "y", "may")}
  \cup {[Mdl(sh, <<>>, <<Nd("p", "Relu", <<"x">>, <<"y">>, <<>>)>>, "y", "may") EXCEPT !.vi = v] : sh \in {<<6>>}, v \in {"all", "none"}}
(* outputs that are not rows *)
NotRows == {Sc(Mdl(sh, <<>>, <<Nd("p", "Relu", <<"x">>, <<"y">>, <<>>)>>, "y", "may"), Usual(G(1), G(2))) : sh \in {X4, X3, <<1, 1, 1, 1>>, <<1, 4, 1>>}}
GKeys == ({"no"} \X {"even", "dilated", "autopad", "ceil", "gemm", "concat", "pad", "mul", "add", "soft", "lrn", "unknown", "second", "inout"}) \cup {<<"ok", "fine">>, <<"ok", "may">>}
GCases(ky) ==
  CASE ky[2] = "even" -> Items(EvenKernels) [] ky[2] = "dilated" -> Items(Dilated) [] ky[2] = "autopad" -> Items(AutoPad) [] ky[2] = "ceil" -> Items(Ceiling)
    [] ky[2] = "gemm" -> Items(Gemms) [] ky[2] = "concat" -> Items(Concats) [] ky[2] = "pad" -> Items(PadsI) [] ky[2] = "mul" -> Items(Muls) [] ky[2] = "add" -> Items(Adds)
    [] ky[2] = "soft" -> Items(Softs) [] ky[2] = "lrn" -> Items(Lrns) [] ky[2] = "unknown" -> Items(Unknown) [] ky[2] = "second" -> Second [] ky[2] = "inout" -> InOut
    [] ky[2] = "fine" -> UNION {{Bare(Wrapped(it, w, 1), S0(3, w)) : w \in 0..3} : it \in Fine}
    [] ky[2] = "may" -> {Bare([ItemM(it) EXCEPT !.cls = "may"], S0(4, Len(it.nd))) : it \in FineMay} \cup {Bare(M, 3) : M \in MayM} \cup NotRows
(* the scenarios are what they are meant to be *)
RefusedAsMeant == (pc = 1) => ((key[1] = "no") <=> (sc.v = "refuse"))
=============================================================================
