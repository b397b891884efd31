------------------------------- MODULE GenC27 -------------------------------
(* C27: every parameter of the model reaches its place through the weights file *)
EXTENDS PicoModels
S0(a, b) == (Seed * 4271) + (a * 149) + b
Q == Tier = 0
P(id, sh, s) == InitF(id, sh, H(s, -2, 2))
BnP(n, s) == <<InitF("g" \o n, <<2>>, HX(s, -3, 3, 0)), InitF("e" \o n, <<2>>, HX(s + 1, -9, 9, 0)), InitF("m" \o n, <<2>>, HX(s + 2, -9, 9, 0)),
               [id |-> "s" \o n, k |-> "f", t |-> [Mk(<<2>>, TLCEval([i \in 1..2 |-> Choose(s + 3, i, <<1023, 4095>>)])) EXCEPT !.x = -10]]>>
ConvN(n, i, w, b, o, k, pd, g) == Nd(n, "Conv", IF b = "" THEN <<i, w>> ELSE <<i, w, b>>, <<o>>,
     <<A1("group", g), AI("kernel_shape", k)>> \o Opt_("pads", pd) \o <<AI("strides", Ones(Len(k)))>>)
BnNd(n, i, q, o) == Nd(n, "BatchNormalization", <<i>> \o q, <<o>>, <<AF("epsilon", 1, -10)>>)

(* ---- every parameterised operation: its nodes from value i to value o, and its parameters ---- *)
Kinds4 == {"conv", "convb", "convg", "convgb", "bn", "none4"}
Kinds3 == {"conv1", "conv1b", "bn3"}
Kinds2 == {"gemm", "gemmb", "matmul", "add", "wtrans", "none2"}
Frag(kd, n, i, o, s) ==
  CASE kd = "conv" -> [nd |-> <<ConvN("c" \o n, i, "w" \o n, "", o, <<1, 1>>, <<>>, 1)>>, it |-> <<P("w" \o n, <<2, 2, 1, 1>>, s)>>]
    [] kd = "convb" -> [nd |-> <<ConvN("c" \o n, i, "w" \o n, "b" \o n, o, <<1, 3>>, <<0, 1, 0, 1>>, 1)>>, it |-> <<P("w" \o n, <<2, 2, 1, 3>>, s), P("b" \o n, <<2>>, s + 1)>>]
    [] kd = "convg" -> [nd |-> <<ConvN("c" \o n, i, "w" \o n, "", o, <<3, 1>>, <<1, 0, 1, 0>>, 2)>>, it |-> <<P("w" \o n, <<2, 1, 3, 1>>, s)>>]
    [] kd = "convgb" -> [nd |-> <<ConvN("c" \o n, i, "w" \o n, "b" \o n, o, <<1, 1>>, <<>>, 2)>>, it |-> <<P("b" \o n, <<2>>, s + 1), P("w" \o n, <<2, 1, 1, 1>>, s)>>]
    [] kd = "bn" -> [nd |-> <<BnNd("n" \o n, i, <<"g" \o n, "e" \o n, "m" \o n, "s" \o n>>, o)>>, it |-> BnP(n, s)]
    [] kd = "none4" -> [nd |-> <<Nd("r" \o n, "Relu", <<i>>, <<o>>, <<>>)>>, it |-> <<>>]
    [] kd = "conv1" -> [nd |-> <<ConvN("c" \o n, i, "w" \o n, "", o, <<3>>, <<1, 1>>, 1)>>, it |-> <<P("w" \o n, <<2, 2, 3>>, s)>>]
    [] kd = "conv1b" -> [nd |-> <<ConvN("c" \o n, i, "w" \o n, "b" \o n, o, <<1>>, <<>>, 2)>>, it |-> <<P("w" \o n, <<2, 1, 1>>, s), P("b" \o n, <<2>>, s + 1)>>]
    [] kd = "bn3" -> [nd |-> <<BnNd("n" \o n, i, <<"g" \o n, "e" \o n, "m" \o n, "s" \o n>>, o)>>, it |-> BnP(n, s)]
    [] kd = "gemm" -> [nd |-> <<GemmN("g" \o n, i, "w" \o n, "", o)>>, it |-> <<P("w" \o n, <<4, 4>>, s)>>]
    [] kd = "gemmb" -> [nd |-> <<GemmN("g" \o n, i, "w" \o n, "b" \o n, o)>>, it |-> <<P("w" \o n, <<4, 4>>, s), P("b" \o n, <<4>>, s + 1)>>]
    [] kd = "matmul" -> [nd |-> <<Nd("m" \o n, "MatMul", <<i, "w" \o n>>, <<o>>, <<>>)>>, it |-> <<P("w" \o n, <<4, 4>>, s)>>]
    [] kd = "add" -> [nd |-> <<Nd("a" \o n, "Add", IF s % 2 = 0 THEN <<i, "b" \o n>> ELSE <<"b" \o n, i>>, <<o>>, <<>>)>>, it |-> <<P("b" \o n, <<4>>, s + 1)>>]
    [] kd = "wtrans" -> [nd |-> <<Nd("t" \o n, "Transpose", <<"w" \o n>>, <<"wt" \o n>>, <<AI("perm", <<1, 0>>)>>), Nd("m" \o n, "MatMul", <<i, "wt" \o n>>, <<o>>, <<>>)>>, it |-> <<P("w" \o n, <<4, 4>>, s)>>]
    [] kd = "none2" -> [nd |-> <<Nd("r" \o n, "Clip", <<i>>, <<o>>, <<AF("min", -900, 0), AF("max", 900, 0)>>)>>, it |-> <<>>]
Vn(k) == IF k = 0 THEN "x" ELSE "v" \o ToString(k)
Cat0(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
ChainM(insh, ks, s) ==
  LET fr == [k \in 1..Len(ks) |-> Frag(ks[k], ToString(k), Vn(k - 1), Vn(k), s + k)]
      its == Cat0([k \in 1..Len(ks) |-> fr[k].it])
      (* the initializers in the order of the file: as used, reversed, or rotated *)
      ord == CASE s % 3 = 0 -> its [] s % 3 = 1 -> Reverse(its) [] OTHER -> IF its = <<>> THEN its ELSE Append(Tail(its), Head(its))
  IN Mdl(insh, ord, Cat0([k \in 1..Len(ks) |-> fr[k].nd]), Vn(Len(ks)), "accept")
Kno(k) == CASE k \in {"conv", "conv1", "gemm"} -> 1 [] k \in {"convb", "conv1b", "gemmb"} -> 2 [] k \in {"convg", "bn3", "matmul"} -> 3 [] k \in {"convgb", "add"} -> 4 [] k \in {"bn", "wtrans"} -> 5 [] OTHER -> 6
Kn(ks) == Sum([i \in 1..Len(ks) |-> Kno(ks[i]) * (5 * i)])
Go(M, s) == Sc(Plain(M, s), <<HNew(1), HLoad(1), HRun(1, H(s + 1, -3, 3)), HDel(1)>>)
Chain(insh, ks) == Go(ChainM(insh, ks, S0(1, Kn(ks))), S0(2, Kn(ks)))
Chains(insh, kinds, k1) == {Chain(insh, <<k1>>)} \cup {Chain(insh, <<k1, k2>>) : k2 \in kinds} \cup {Chain(insh, <<k1, c[1], c[2]>>) : c \in kinds \X kinds}
(* convolutional part, flattening, dense part *)
MixedM(k4, k2, s) ==
  LET A == Frag(k4[1], "1", "x", "v1", s) B == Frag(k4[2], "2", "v1", "v2", s + 1)
      C == Frag(k2[1], "3", "f", "v3", s + 2) D == Frag(k2[2], "4", "v3", "y", s + 3)
  IN Mdl(<<1, 2, 2, 1>>, C.it \o A.it \o D.it \o B.it, A.nd \o B.nd \o <<Nd("f", "Flatten", <<"v2">>, <<"f">>, <<A1("axis", 1)>>)>> \o C.nd \o D.nd, "y", "accept")
Mixed(a) == {Go(MixedM(<<a, c[1]>>, <<c[2], c[3]>>, S0(3, Kn(<<a, c[1], c[2], c[3]>>))), S0(4, Kn(<<c[3], c[2], a>>)))
               : c \in {c \in (Kinds4 \X Kinds2 \X Kinds2) : ~Q \/ Rnd(S0(5, Kn(<<a>>)), Kn(<<c[1], c[2], c[3]>>), 0, 5) = 0}}

(* ---- one parameter read by several nodes ---- *)
B01(b) == IF b = 0 THEN "" ELSE "b" \o ToString(b)
W3M(ws, bs, s) ==
  Mdl(<<1, 2, 3, 2>>, <<P("b2", <<2>>, s), P("w1", <<2, 2, 3, 1>>, s + 1), P("b1", <<2>>, s + 2), P("w2", <<2, 2, 3, 1>>, s + 3)>>,
      [k \in 1..3 |-> ConvN("c" \o ToString(k), Vn(k - 1), "w" \o ToString(ws[k]), B01(bs[k]), Vn(k), <<3, 1>>, <<1, 0, 1, 0>>, 1)], "v3", "accept")
Three(S) == S \X S \X S
Shared3(w) == {Go(W3M(<<w, w2, w3>>, bs, S0(6, w2 + w3)), S0(7, bs[1] + 3 * bs[2] + 5 * bs[3])) : w2 \in 1..2, w3 \in 1..2, bs \in Three(0..2)}
G2M(op, ws, bs, s) ==
  Mdl(<<1, 3>>, <<P("w1", <<3, 3>>, s + 1), P("b1", <<3>>, s + 2), P("w2", <<3, 3>>, s + 3), P("b2", <<3>>, s)>>,
      Cat0([k \in 1..Len(ws) |->
        IF op[k] = "g" THEN <<GemmN("g" \o ToString(k), Vn(k - 1), "w" \o ToString(ws[k]), B01(bs[k]), Vn(k))>>
        ELSE IF bs[k] = 0 THEN <<Nd("m" \o ToString(k), "MatMul", <<Vn(k - 1), "w" \o ToString(ws[k])>>, <<Vn(k)>>, <<>>)>>
        ELSE <<Nd("m" \o ToString(k), "MatMul", <<Vn(k - 1), "w" \o ToString(ws[k])>>, <<"h" \o ToString(k)>>, <<>>),
               Nd("a" \o ToString(k), "Add", <<"h" \o ToString(k), B01(bs[k])>>, <<Vn(k)>>, <<>>)>>]), "v" \o ToString(Len(ws)), "accept")
(* a Gemm and a MatMul may want one matrix in different orientations: refused or right *)
SharedDense == {LET M == G2M(<<o1, o2>>, <<w1, w2>>, <<b1, b2>>, S0(8, w1)) IN
                Go(IF o1 # o2 /\ w1 = w2 THEN [M EXCEPT !.cls = "may"] ELSE M, S0(9, b1 + b2)) : o1 \in {"g", "m"}, o2 \in {"g", "m"}, w1 \in 1..2, w2 \in 1..2, b1 \in 0..2, b2 \in 0..2}
(* the four parameters of two batch normalizations, from two tensors which may be any of them *)
PQ(s) == <<[id |-> "p1", k |-> "f", t |-> [Mk(<<2>>, <<255, 1023>>) EXCEPT !.x = -10]], [id |-> "p2", k |-> "f", t |-> [Mk(<<2>>, <<1023, 255>>) EXCEPT !.x = -10]]>>
Bn2M(c, first) == Mdl(<<1, 2, 2, 1>>, PQ(1), <<BnNd("n1", "x", <<"p" \o ToString(c[1]), "p" \o ToString(c[2]), "p" \o ToString(c[3]), "p" \o ToString(c[4])>>, "h")>>
        \o (IF first THEN <<BnNd("n2", "x", <<"p" \o ToString(c[4]), "p" \o ToString(c[1]), "p" \o ToString(c[2]), "p" \o ToString(c[3])>>, "h2"),
                            Nd("k", "Concat", <<"h", "h2">>, <<"y">>, <<A1("axis", 1)>>)>> ELSE <<Nd("k", "Relu", <<"h">>, <<"y">>, <<>>)>>), "y", "accept")
SharedBn == {Go(Bn2M(c, f), Sum(c)) : c \in (1..2) \X (1..2) \X (1..2) \X (1..2), f \in BOOLEAN}
(* a convolution's bias and a batch normalization's parameter, a row's bias and an addition *)
SharedAcross ==
  {Go(Mdl(<<1, 2, 2, 1>>, PQ(1) \o <<P("w", <<2, 2, 1, 1>>, S0(10, 1))>>,
        IF o THEN <<ConvN("c", "x", "w", "p1", "h", <<1, 1>>, <<>>, 1), BnNd("n", "x", <<"p2", b, "p1", "p2">>, "h2"), Nd("k", "Concat", <<"h", "h2">>, <<"y">>, <<A1("axis", 1)>>)>>
        ELSE <<BnNd("n", "x", <<"p2", b, "p1", "p2">>, "h2"), ConvN("c", "x", "w", "p1", "h", <<1, 1>>, <<>>, 1), Nd("k", "Concat", <<"h", "h2">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"), 5)
     : o \in BOOLEAN, b \in {"p1", "p2"}}
  \cup {Go(Mdl(<<1, 3>>, <<P("w", <<3, 3>>, 4), P("b", <<3>>, 5)>>,
        IF o = 1 THEN <<GemmN("g", "x", "w", "b", "h"), Nd("a", "Add", <<"h", "b">>, <<"y">>, <<>>)>>
        ELSE IF o = 2 THEN <<Nd("a", "Add", <<"x", "b">>, <<"h">>, <<>>), GemmN("g", "h", "w", "b", "y")>>
        ELSE <<Nd("a", "Add", <<"x", "b">>, <<"h">>, <<>>), Nd("a2", "Add", <<"b", "h">>, <<"h2">>, <<>>), GemmN("g", "h2", "w", "b", "y")>>, "y", "accept"), o) : o \in 1..3}
  (* the bias is the first parameter to be written, its kernel was written before *)
  \cup {Go(Mdl(<<1, 2, 3, 2>>, <<P("w", <<2, 2, 1, 1>>, 7), P("b", <<2>>, 8)>>,
        <<ConvN("c1", "x", "w", "", "h", <<1, 1>>, <<>>, 1), ConvN("c2", "h", "w", "b", "h2", <<1, 1>>, <<>>, 1), ConvN("c3", "h2", "w", "b", "y", <<1, 1>>, <<>>, 1)>>, "y", "accept"), k) : k \in 1..3}
  (* parameters nobody reads, and two parameters with the same content *)
  \cup {Go(Mdl(<<1, 3>>, <<P("u1", <<5>>, 1), P("w", <<3, 3>>, 4), P("u2", <<3, 3>>, 2), P("v", <<3, 3>>, 4), P("b", <<3>>, 5), InitN("u3", <<1, 2>>)>>,
        <<GemmN("g", "x", "w", "b", "h"), GemmN("g2", "h", "v", "", "y")>>, "y", "accept"), k) : k \in 1..2}
  (* a factor that is a parameter elsewhere *)
  \cup {Go(Mdl(<<1, 1>>, <<P("f", <<1>>, 3)>>, <<Nd("m", "Mul", <<"x", "f">>, <<"h">>, <<>>), Nd("a", "Add", <<"h", "f">>, <<"y">>, <<>>)>>, "y", "may"), k) : k \in 1..2}

(* ---- any value arrives bit for bit (histories without a run) ---- *)
Any_(id, sh, s) == [id |-> id, k |-> "f", t |-> [Mk(sh, TLCEval([i \in 1..Prod(sh) |->
     IF Rnd(s, i, 0, 5) = 0 THEN Choose(s, i, <<90, -90, 200, 201, 202>>) ELSE Rnd(s + 1, i, -41, 41)])) EXCEPT !.m = "o"]]
NoRun(M, s) == Sc(Plain(M, s), <<HNew(1), HLoad(1), HDel(1)>>)
ConvShapes == {<<2, 2, 1, 1>>, <<1, 1, 3, 3>>, <<3, 2, 1, 3>>, <<4, 1, 5, 1>>, <<2, 3, 3, 5>>, <<8, 4, 3, 3>>, <<1, 7, 1, 1>>, <<2, 2, 1>>, <<3, 1, 5>>, <<1, 4, 3>>, <<5, 2, 1>>}
BitsConv(sh, b, s) ==
  LET sp == SubSeq(sh, 3, Len(sh)) IN
  Mdl(<<1, sh[2]>> \o [i \in 1..Len(sp) |-> 5 + i], <<Any_("w", sh, s)>> \o (IF b THEN <<Any_("b", <<sh[1]>>, s + 9)>> ELSE <<>>),
      <<ConvN("c", "x", "w", IF b THEN "b" ELSE "", "y", sp, <<>>, 1)>>, "y", "accept")
BitsDense(op, x, y, b, s) ==
  Mdl(<<1, x>>, <<Any_("w", IF op = "g" THEN <<y, x>> ELSE <<x, y>>, s)>> \o (IF b THEN <<Any_("b", <<y>>, s + 9)>> ELSE <<>>),
      IF op = "g" THEN <<GemmN("g", "x", "w", IF b THEN "b" ELSE "", "y")>>
      ELSE <<Nd("m", "MatMul", <<"x", "w">>, <<"h">>, <<>>)>> \o (IF b THEN <<Nd("a", "Add", <<"h", "b">>, <<"y">>, <<>>)>> ELSE <<Nd("a", "Relu", <<"h">>, <<"y">>, <<>>)>>), "y", "accept")
BitsBn(c, sh, s) == Mdl(sh, <<Any_("g", <<c>>, s), Any_("e", <<c>>, s + 1), Any_("m", <<c>>, s + 2), Any_("v", <<c>>, s + 3)>>, <<BnNd("n", "x", <<"g", "e", "m", "v">>, "y")>>, "y", "accept")
Bits == {NoRun(BitsConv(sh, b, S0(11, sh[1] + k)), S0(12, sh[2])) : sh \in ConvShapes, b \in BOOLEAN, k \in 1..2}
   \cup {NoRun(BitsDense(op, xy[1], xy[2], b, S0(13, xy[1] + k)), S0(14, xy[2])) : op \in {"g", "m"}, b \in BOOLEAN, xy \in {<<1, 1>>, <<2, 9>>, <<9, 2>>, <<1, 6>>, <<6, 1>>, <<5, 5>>, <<30, 20>>}, k \in 1..2}
   \cup {NoRun(BitsBn(a[1], a[2], S0(15, a[1] + k)), k) : a \in {<<1, <<1, 1, 2, 2>> >>, <<3, <<1, 3, 2, 2>> >>, <<40, <<1, 40, 1, 1>> >>, <<2, <<1, 2, 5>> >>}, k \in 1..2}
   \cup {NoRun(Mdl(<<1, n>>, <<Any_("b", <<n>>, S0(16, n))>>, <<Nd("a", "Add", <<"x", "b">>, <<"y">>, <<>>)>>, "y", "accept"), n) : n \in {1, 2, 7, 100}}
   \cup {NoRun(Mdl(<<1, 4>>, <<Any_("w", sh, S0(17, sh[1]))>>, <<Nd("t", "Transpose", <<"w">>, <<"wt">>, <<AI("perm", <<1, 0>>)>>), Nd("m", "MatMul", <<"x", "wt">>, <<"y">>, <<>>)>>, "y", "accept"), sh[1]) : sh \in {<<1, 4>>, <<6, 4>>, <<3, 4>>}}
   (* wide: more than 256 of everything, once *)
   \cup {NoRun(BitsConv(sh, b, S0(19, sh[1])), sh[2]) : b \in BOOLEAN, sh \in {<<300, 1, 1, 1>>, <<1, 300, 1, 1>>, <<1, 1, 260, 1>>, <<1, 1, 1, 260>>, <<300, 1, 1>>, <<1, 300, 1>>, <<1, 1, 260>>, <<2, 270, 1, 3>>, <<270, 2, 3>>, <<2, 270, 2>>, <<65, 33, 1, 3>>, <<33, 65, 2>>}}
   \cup {NoRun(BitsDense(op, xy[1], xy[2], b, S0(20, xy[1])), S0(14, xy[2])) : op \in {"g", "m"}, b \in BOOLEAN, xy \in {<<1, 300>>, <<300, 1>>, <<1, 1030>>, <<1030, 1>>, <<3, 270>>, <<270, 3>>, <<65, 33>>, <<33, 129>>}}
   \cup {NoRun(BitsBn(c, <<1, c, 1, 1>>, S0(21, c)), c) : c \in {65, 129, 300, 1030}} \cup {NoRun(BitsBn(300, <<1, 300, 2>>, S0(21, 2)), 2)}
   \cup {NoRun(Mdl(<<1, n>>, <<Any_("b", <<n>>, S0(16, n))>>, <<Nd("a", "Add", <<"x", "b">>, <<"y">>, <<>>)>>, "y", "accept"), n) : n \in {257, 1030, 5000}}
   (* large *)
   \cup {NoRun(BitsConv(<<16, 12, 5, 5>>, TRUE, S0(18, 1)), 1), NoRun(BitsDense("g", 120, 84, TRUE, S0(18, 2)), 2)}
   \cup (IF Q THEN {} ELSE {NoRun(BitsConv(<<64, 32, 5, 5>>, TRUE, S0(18, 3)), 1), NoRun(BitsDense("g", 500, 100, TRUE, S0(18, 4)), 2), NoRun(BitsDense("m", 300, 200, TRUE, S0(18, 5)), 2)})

(* many layers (parameters only) *)
LongChain(insh, kinds, n) == NoRun(ChainM(insh, [i \in 1..n |-> kinds[1 + (((i * i) + n) % Len(kinds))]], S0(22, n)), n)
Longs(n) == {LongChain(<<1, 2, 3, 2>>, <<"convb", "none4", "conv", "bn", "convg", "convgb">>, n), LongChain(<<1, 2, 4>>, <<"conv1", "bn3", "conv1b">>, n),
             LongChain(<<1, 4>>, <<"gemmb", "add", "matmul", "none2", "wtrans", "gemm">>, n)}
(* a parameter used again long after its first use *)
FarM(n, again, s) ==
  LET Nm(k) == IF k <= n THEN ToString(k) ELSE ToString(again[k - n])
      m == n + Len(again)
  IN Mdl(<<1, 3>>, Cat0([k \in 1..n |-> <<P("w" \o ToString(k), <<3, 3>>, s + k)>> \o (IF k % 3 = 0 THEN <<>> ELSE <<P("b" \o ToString(k), <<3>>, s + k + 1)>>)]),
         [k \in 1..m |-> GemmN("g" \o ToString(k), Vn(k - 1), "w" \o Nm(k), IF (IF k <= n THEN k ELSE again[k - n]) % 3 = 0 THEN "" ELSE "b" \o Nm(k), Vn(k))], "v" \o ToString(m), "accept")
FarBn(n, s) == Mdl(<<1, 2, 2, 1>>, Cat0([k \in 1..n |-> BnP(ToString(k), s + k)]),
         [k \in 1..(n + 1) |-> LET j == ToString(IF k > n THEN 1 ELSE k) IN BnNd("n" \o ToString(k), Vn(k - 1), <<"g" \o j, "e" \o j, "m" \o j, "s" \o j>>, Vn(k))], "v" \o ToString(n + 1), "accept")
Far == {NoRun(FarM(n, a, S0(23, n)), n) : n \in {2, 3, 5, 9, 20}, a \in {<<1>>, <<2, 1>>, <<2, 2, 1>>}} \cup {NoRun(FarM(90, <<1, 45, 90, 2>>, S0(23, 90)), 2)} \cup {NoRun(FarBn(n, S0(24, n)), n) : n \in {2, 4, 9}}
GKeys == ({"c4"} \X Kinds4) \cup ({"c3"} \X Kinds3) \cup ({"c2"} \X Kinds2) \cup ({"mix"} \X Kinds4) \cup {<<"sh", "1">>, <<"sh", "2">>, <<"dense", "z">>, <<"bnsh", "z">>, <<"across", "z">>, <<"bits", "z">>, <<"long", "12">>, <<"long", "40">>, <<"long", "270">>, <<"far", "z">>}
GCases(ky) ==
  CASE ky[1] = "c4" -> Chains(<<1, 2, 3, 2>>, Kinds4, ky[2])
    [] ky[1] = "c3" -> Chains(<<1, 2, 4>>, Kinds3, ky[2])
    [] ky[1] = "c2" -> Chains(<<1, 4>>, Kinds2, ky[2])
    [] ky[1] = "mix" -> Mixed(ky[2])
    [] ky[1] = "sh" -> Shared3(IF ky[2] = "1" THEN 1 ELSE 2)
    [] ky[1] = "dense" -> SharedDense [] ky[1] = "bnsh" -> SharedBn [] ky[1] = "across" -> SharedAcross [] ky[1] = "bits" -> Bits
    [] ky[1] = "far" -> Far
    [] ky[1] = "long" -> Longs(CASE ky[2] = "12" -> 12 [] ky[2] = "40" -> 40 [] OTHER -> 270)
=============================================================================
