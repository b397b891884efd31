------------------------------- MODULE GenC25 -------------------------------
(* C25: an imported network computes its ONNX operators *)
EXTENDS PicoModels
S0(a, b) == (Seed * 7919) + (a * 101) + b
I4 == <<1, 4, 6, 7>>
I3 == <<1, 4, 9>>
Q == Tier = 0
(* quick runs take a third of the larger products, thorough runs everything *)
Part(set, s, f(_)) == {c \in set : Q => f(c) % 3 = s % 3}
ConvK2 == {<<1, 1>>, <<3, 3>>, <<3, 1>>, <<1, 3>>, <<5, 3>>}
Str2 == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 3>>}
Pad2 == {<<>>, <<0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<1, 0, 2, 1>>, <<0, 2, 1, 0>>, <<2, 1, 0, 1>>}
Hsh(k, st, pd) == Sum([i \in 1..Len(k) |-> k[i] * i * 3]) + Sum([i \in 1..Len(st) |-> st[i] * i]) + Sum([i \in 1..Len(pd) |-> pd[i] * (i + 1)])
ConvCases(g, bias) ==
  {Std(ConvM(I4, 4, c[1], c[2], c[3], g, bias, S0(1, Hsh(c[1], c[2], c[3])), "accept"), S0(2, Hsh(c[1], c[2], c[3]) + g))
     : c \in Part(ConvK2 \X Str2 \X Pad2, Seed + g, LAMBDA c : Hsh(c[1], c[2], c[3]))}
Conv1Cases(g, bias) ==
  {Std(ConvM(I3, 4, c[1], c[2], c[3], g, bias, S0(3, Hsh(c[1], c[2], c[3])), "accept"), S0(4, Hsh(c[1], c[2], c[3]) + g))
     : c \in {<<1>>, <<3>>, <<5>>} \X {<<1>>, <<2>>, <<3>>} \X {<<>>, <<0, 0>>, <<1, 1>>, <<2, 0>>, <<0, 1>>}}
PadFits(k, pd) == pd = <<>> \/ \A i \in 1..Len(k) : pd[i] < k[i] /\ pd[i + Len(k)] < k[i]
PoolPads == {<<>>, <<0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 0, 0, 0>>, <<0, 0, 0, 1>>}
MaxCases == {Std(MaxM(<<1, 2, 6, 7>>, c[1], c[2], c[3], "accept"), S0(5, Hsh(c[1], c[2], c[3])))
     : c \in {c \in {<<2, 2>>, <<3, 2>>, <<1, 3>>, <<3, 3>>} \X Str2 \X PoolPads : PadFits(c[1], c[3])}}
AvgCases(incl) == {Sc(Plain(AvgM(<<1, 2, 6, 7>>, c[1], c[2], c[3], incl, "accept"), S0(6, Hsh(c[1], c[2], c[3]))), Usual(G(S0(7, 1)), G(S0(7, 2))))
     : c \in {c \in {<<2, 2>>, <<4, 2>>, <<1, 2>>, <<3, 2>>} \X Str2 \X PoolPads : PadFits(c[1], c[3])}}
Pool1Pads == {<<>>, <<0, 0>>, <<1, 1>>, <<1, 0>>, <<0, 1>>}
Max1Cases == {Std(MaxM(<<1, 3, 9>>, c[1], c[2], c[3], "accept"), S0(8, Hsh(c[1], c[2], c[3])))
     : c \in {c \in {<<1>>, <<2>>, <<3>>} \X {<<1>>, <<2>>, <<3>>} \X Pool1Pads : PadFits(c[1], c[3])}}
Avg1Cases(incl) == {Sc(Plain(AvgM(<<1, 3, 9>>, c[1], c[2], c[3], incl, "accept"), S0(9, Hsh(c[1], c[2], c[3]))), Usual(G(S0(9, 1)), G(S0(9, 2))))
     : c \in {c \in {<<1>>, <<2>>, <<3>>, <<4>>} \X {<<1>>, <<2>>, <<3>>} \X (Pool1Pads \ {<<>>}) : PadFits(c[1], c[3])}}
     \cup {Sc(Plain(AvgM(<<1, 3, 9>>, <<2>>, <<2>>, <<>>, incl, "may"), 1), Usual(G(1), G(2)))}
Glob(op) == {Bare(One1(sh, op, <<>>, "accept"), S0(10, sh[2])) : sh \in {<<1, 3, 4, 2>>, <<1, 1, 1, 1>>, <<1, 5, 3, 3>>, <<1, 2, 8, 1>>, <<1, 2, 1, 8>>, <<1, 70, 2, 2>>}}
            \cup {Bare(One1(sh, op, <<>>, "may"), S0(10, sh[2])) : sh \in {<<1, 3, 4>>, <<1, 2, 8>>}}
Gemms == {Std(GemmM(xy[1], xy[2], bias, S0(11, xy[1] * 7 + xy[2]), "accept"), S0(12, xy[1] + xy[2])) : xy \in {<<1, 1>>, <<3, 5>>, <<5, 3>>, <<4, 4>>, <<1, 7>>, <<9, 1>>, <<200, 3>>}, bias \in BOOLEAN}
(* other shapes of C, and the attributes one by one *)
GemmC(csh) == Mdl(<<1, 4>>, <<InitF("w", <<3, 4>>, H(Seed, -5, 5)), [id |-> "b", k |-> "f", t |-> Fill(Zeros(csh), H(Seed + 1, -50, 50))]>>,
                  <<GemmN("g", "x", "w", "b", "y")>>, "y", "may")
GemmAt(at) == Mdl(<<1, 4>>, <<InitF("w", <<3, 4>>, H(Seed, -5, 5)), InitF("b", <<3>>, H(Seed + 1, -50, 50))>>, <<Nd("g", "Gemm", <<"x", "w", "b">>, <<"y">>, at)>>, "y", "accept")
(* the rows of a matrix: only a single row is what the library's dense layers take *)
RowsM == {Bare(Mdl(<<r, 4>>, <<InitF("w", <<3, 4>>, H(Seed, -5, 5))>> \o (IF b THEN <<InitF("b", <<3>>, H(Seed + 1, -50, 50))>> ELSE <<>>), <<GemmN("g", "x", "w", IF b THEN "b" ELSE "", "y")>>, "y", "may"), r) : r \in {2, 3}, b \in BOOLEAN}
  \cup {Bare(Mdl(<<r, 4>>, <<InitF("w", <<4, 3>>, H(Seed, -5, 5))>>, <<Nd("g", "MatMul", <<"x", "w">>, <<"y">>, <<>>)>>, "y", "may"), r) : r \in {2, 3}}
GemmMore == RowsM \cup {Bare(GemmC(c), S0(13, Len(c))) : c \in {<<1, 3>>, <<1>>, <<1, 1>>, <<>>}}
   \cup {Bare(GemmAt(at), S0(13, Len(at))) : at \in {<<A1("transB", 1)>>, <<A1("transA", 0), A1("transB", 1)>>, <<AF("alpha", 1, 0), A1("transA", 0), A1("transB", 1)>>, <<AF("beta", 1, 0), A1("transB", 1)>>}}
MatMuls == {Std(MatMulM(xy[1], xy[2], S0(14, xy[1] * 7 + xy[2]), "accept"), S0(15, xy[1] + xy[2])) : xy \in {<<1, 1>>, <<3, 5>>, <<5, 3>>, <<4, 4>>, <<1, 7>>, <<9, 1>>}}
  \cup {Std(Mdl(<<1, 4>>, <<InitF("w", <<4, 6>>, H(Seed, -5, 5)), InitF("b", <<6>>, H(Seed + 1, -50, 50))>>,
                <<Nd("mm", "MatMul", <<"x", "w">>, <<"h">>, <<>>), Nd("ad", "Add", o, <<"y">>, <<>>)>>, "y", "accept"), S0(16, k)) : o \in {<<"h", "b">>, <<"b", "h">>}, k \in 1..2}
  (* weights transposed in the graph *)
  \cup {Bare(Mdl(<<1, 4>>, <<InitF("w", <<6, 4>>, H(Seed, -5, 5))>>,
                <<Nd("t", "Transpose", <<"w">>, <<"wt">>, <<AI("perm", <<1, 0>>)>>), Nd("mm", "MatMul", <<"x", "wt">>, <<"y">>, <<>>)>>, "y", "accept"), S0(17, k)) : k \in 1..2}
BnEps(sh, e, s) == LET M == BnM(sh, s, "accept") IN
  [M EXCEPT !.inits = [i \in 1..4 |-> IF M.inits[i].id = "var" THEN [M.inits[i] EXCEPT !.t = [Mk(<<4>>, e[3]) EXCEPT !.x = e[2]]] ELSE M.inits[i]],
            !.nodes = <<Nd("bn", "BatchNormalization", M.nodes[1].ins, <<"y">>, <<AF("epsilon", e[1], e[2])>>)>>]
Bns == {Std(BnM(sh, S0(18, sh[2]), "accept"), S0(19, sh[2] + k)) : sh \in {<<1, 3, 4, 2>>, <<1, 1, 2, 3>>, <<1, 5, 1, 1>>, <<1, 3, 6>>, <<1, 4, 1>>}, k \in 1..2}
   \cup {Bare(BnM(<<1, 4>>, S0(18, 4), "may"), 3)}
   (* other epsilons, down to the usual 1e-5: <<its mantissa, the exponent, the variances>> *)
   \cup {Std(BnEps(<<1, 4, 2, 3>>, e, S0(18, 0 - e[2])), S0(19, e[1] % 97)) : e \in
        {<<1, -4, <<15, 63, 255, 3>> >>, <<1, -14, <<255, 3, 1023, 65535>> >>, <<1, -18, <<255, 3, 4095, 65535>> >>, <<1, -20, <<255, 3, 15, 1048575>> >>, <<1, -24, <<3, 15, 63, 255>> >>,
         <<3, -20, <<1, 61, 253, 4093>> >>, <<0, -10, <<256, 1024, 4, 1>> >>, <<2748779, -38, <<14028437, 1445525, 14028437, 1445525>> >>}}
ClipAts == {<<AF("max", a[2], a[3]), AF("min", a[1], a[3])>> : a \in {<<-3, 4, 0>>, <<-7, 9, -1>>, <<0, 6, 0>>, <<2, 2, 0>>, <<-9, -1, -2>>, <<-8388607, 8388607, -21>>, <<1, 8388607, -20>>}}
Clips == {Std(One1(sh, "Clip", at, "accept"), S0(20, Len(sh))) : at \in ClipAts, sh \in {<<1, 2, 3, 4>>, <<1, 7>>, <<1, 2, 5>>}}
  \cup {Sc(Plain(One1(<<1, 20>>, "Clip", <<AO("min", b[1]), AO("max", b[2])>>, "accept"), 4), Usual(Ords(Seed, -41, 41), Ords(Seed + 1, -41, 41)))
          : b \in {<<-41, 41>>, <<0, 18>>, <<0, 41>>, <<-9, 9>>, <<-6, 29>>, <<-41, 0>>}}
Relus == {Sc(Plain(One1(sh, "Relu", <<>>, "accept"), S0(21, Len(sh))), Usual(Ords(Seed, -41, 41), Ords(Seed + 1, -41, 41))) : sh \in {<<1, 2, 3, 4>>, <<1, 33>>, <<1, 2, 5>>, <<3, 4>>}}
Softmaxes ==
  {Sc(Plain(One1(<<1, n>>, "Softmax", at, "accept"), S0(22, n)), Usual(Latt(S0(23, n), -30, 30, 0), Latt(S0(24, n), -20, 20, 7))) : n \in {1, 2, 5, 10, 40}, at \in {<<>>, <<A1("axis", 1)>>}}
  \cup {Sc(Plain(One1(<<1, 6>>, "Softmax", <<A1("axis", -1)>>, "may"), 2), Usual(Latt(3, -30, 30, 0), Latt(4, -20, 20, 0)))}
  \cup {Sc(Plain(Mdl(<<1, 3, 2, 2>>, <<>>, <<Nd("f", "Flatten", <<"x">>, <<"h">>, <<A1("axis", 1)>>), Nd("s", "Softmax", <<"h">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"), k), Usual(Latt(k, -30, 30, 0), Latt(k + 1, -9, 9, 0))) : k \in 1..3}
LrnAt(a, x, b4, n) == <<AF("alpha", a, x), AF("beta", b4, -2), AF("bias", 1, 0), A1("size", n)>>
Lrns == {Sc(Plain(One1(sh, "LRN", LrnAt(a[1], a[2], b4, n), "accept"), S0(25, n)), Usual(H(S0(26, n), -9, 9), H(S0(27, n), -9, 9)))
           : sh \in {<<1, 5, 2, 3>>, <<1, 1, 2, 2>>, <<1, 2, 3, 1>>}, a \in {<<1, -3>>, <<5, -6>>, <<1, 0>>}, b4 \in {3, 2, 4}, n \in {1, 3, 5}}
MulM(sh, fsh, v, x, cls) == Mdl(sh, <<[id |-> "f", k |-> "f", t |-> [Mk(fsh, <<v>>) EXCEPT !.x = x]]>>, <<Nd("m", "Mul", <<"x", "f">>, <<"y">>, <<>>)>>, "y", cls)
Muls == {Std(MulM(sh, fsh, v[1], v[2], "accept"), S0(28, Len(sh) + v[1])) : sh \in {<<1, 2, 3, 2>>, <<1, 6>>}, fsh \in {<<>>, <<1>>}, v \in {<<3, -3>>, <<-2, 0>>, <<0, 0>>, <<5, 10>>}}
   \cup {Sc(Plain(MulM(<<1, 6>>, fsh, v[1], v[2], "accept"), S0(28, 3)), Usual(H(5, -1, 1), H(6, -1, 1))) : fsh \in {<<>>, <<1>>}, v \in {<<8388607, -20>>, <<13421773, -27>>, <<16777215, -40>>, <<-14680063, 3>>}}
   \cup {Bare(MulM(<<1, 2, 3, 2>>, <<1, 1, 1, 1>>, 3, -1, "may"), 9), Bare(MulM(<<1, 6>>, <<1, 1>>, 3, -1, "may"), 9), Bare(MulM(<<1, 2, 5>>, <<1, 1, 1>>, 3, -1, "may"), 9)}
   \cup {Bare(Mdl(<<1, 6>>, <<InitS("f", 3, -1)>>, <<Nd("m", "Mul", <<"f", "x">>, <<"y">>, <<>>)>>, "y", "may"), 9)}
AddM(sh, csh, first, cls) == Mdl(sh, <<[id |-> "c", k |-> "f", t |-> Fill(Zeros(csh), H(Seed + 3, -50, 50))]>>,
                              <<Nd("a", "Add", IF first THEN <<"c", "x">> ELSE <<"x", "c">>, <<"y">>, <<>>)>>, "y", cls)
Adds == {Std(AddM(<<1, n>>, <<n>>, f, "accept"), S0(29, n)) : n \in {1, 5, 12}, f \in BOOLEAN}
   \cup {Std(AddM(sh, sh, f, "may"), S0(30, Len(sh))) : sh \in {<<1, 5>>, <<1, 2, 3>>, <<1, 2, 3, 2>>}, f \in BOOLEAN}
   \cup {Std(AddM(<<1, 2, 3, 2>>, <<2, 3, 2>>, FALSE, "may"), 7)}
   \cup {Std(Mdl(sh, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("a", "Add", o, <<"y">>, <<>>)>>, "y", "accept"), S0(31, Len(sh)))
           : sh \in {<<1, 5>>, <<1, 2, 3>>, <<1, 2, 3, 2>>}, o \in {<<"x", "h">>, <<"h", "x">>, <<"h", "h">>, <<"x", "x">>}}
CatM(sh, ins, cls) == Mdl(sh, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("c", "Concat", ins, <<"y">>, <<A1("axis", 1)>>)>>, "y", cls)
Cats == {Std(CatM(sh, ins, "accept"), S0(32, Len(sh) + Len(ins))) : sh \in {<<1, 5>>, <<1, 2, 3, 2>>, <<1, 3, 4>>},
           ins \in {<<"x", "h">>, <<"h", "x">>, <<"x", "h", "x">>, <<"h", "h">>, <<"h">>, <<"x", "x", "h", "h", "x">>}}
   (* different channel counts *)
   \cup {Std(Mdl(<<1, 2, 4, 3>>, <<InitF("w", <<3, 2, 1, 1>>, H(Seed, -3, 3))>>,
            <<Nd("c", "Conv", <<"x", "w">>, <<"h">>, <<A1("group", 1), AI("kernel_shape", <<1, 1>>), AI("strides", <<1, 1>>)>>), Nd("k", "Concat", ins, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"), S0(33, Len(ins)))
          : ins \in {<<"x", "h">>, <<"h", "x">>, <<"x", "h", "x">>}}
Pads == {Std(PadM(<<1, 2, 3, 4>>, pd, v[1], v[2], "accept"), S0(34, Hsh(<<>>, <<>>, pd)))
           : pd \in {<<0, 0, 1, 2, 0, 0, 3, 4>>, <<0, 0, 1, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 2>>, <<0, 0, 2, 2, 0, 0, 2, 2>>, <<0, 0, 0, 1, 0, 0, 2, 0>>}, v \in {<<0, 0>>, <<5, -1>>, <<-3, 0>>}}
   \cup {Std(PadM(<<1, 2, 5>>, pd, v[1], v[2], "accept"), S0(35, Hsh(<<>>, <<>>, pd))) : pd \in {<<0, 0, 1, 0, 0, 2>>, <<0, 0, 3, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1>>}, v \in {<<0, 0>>, <<5, -1>>}}
   \cup {Std(PadM(<<2, 3>>, pd, v[1], v[2], "accept"), S0(36, Hsh(<<>>, <<>>, pd))) : pd \in {<<1, 2, 3, 4>>, <<0, 0, 1, 0>>, <<0, 1, 0, 0>>, <<2, 0, 0, 1>>}, v \in {<<0, 0>>, <<5, -1>>}}
   \cup {Std(PadM(<<1, 2, 3, 4>>, pd, 0, 0, "may"), 4) : pd \in {<<0, 0, -1, 0, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 2, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, -2>>}}
   \cup {Std(PadM(<<1, 2, 5>>, pd, 0, 0, "may"), 4) : pd \in {<<0, 0, -1, 0, 0, 0>>, <<0, 1, 0, 0, 0, 0>>}}
Perm(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Transposes == {Sc(Plain(One1(<<1, 2, 3, 4>>, "Transpose", <<AI("perm", <<p[1], p[2], p[3], p[4]>>)>>, "accept"), S0(37, p[2])), Usual(Ords(Seed, -41, 41), Ids(1))) : p \in Perm(0..3)}
   \cup {Sc(Plain(One1(sh, "Transpose", <<AI("perm", p)>>, "accept"), S0(38, p[1])), Usual(Ids(1), Ords(3, -41, 41))) : sh \in {<<2, 5>>, <<1, 4>>, <<3, 1>>}, p \in {<<0, 1>>, <<1, 0>>}}
   \cup {Sc(Plain(One1(<<1, 3, 4>>, "Transpose", <<AI("perm", p)>>, "may"), 3), Usual(Ids(1), Ids(7))) : p \in {<<0, 2, 1>>, <<0, 1, 2>>}}
   \cup {Sc(Plain(One1(<<2, 5>>, "Transpose", <<>>, "may"), 3), Usual(Ids(1), Ids(7)))}
Reshapes == {Sc(Dress(ReshapeM(<<1, 2, 3, 4>>, <<1, 2, 3, 4, 1>>, vc, "may"), S0(39, 5)), Usual(G(1), Ids(1))) : vc \in BOOLEAN} \cup {Sc(Dress(ReshapeM(<<1, 2, 3, 4>>, t, vc, "accept"), S0(39, Len(t) + t[Len(t)])), Usual(G(1), Ids(1))) : vc \in BOOLEAN,
               t \in {<<1, 24>>, <<1, -1>>, <<-1, 24>>, <<0, 24>>, <<0, -1>>, <<1, 2, 3, 4>>, <<1, 6, 4, 1>>, <<1, 4, -1, 3>>, <<1, 2, 12>>, <<0, 0, 4, 3>>, <<4, 6>>, <<1, 1, 4, 6>>, <<1, 2, -1>>,
                     <<1, 0, 12>>, <<1, 0, -1>>, <<1, 0, 4, 3>>, <<1, 4, 0, 2>>, <<1, -1, 0, 2>>, <<1, 1, -1, 0>>, <<0, 6, 1, 0>>, <<1, 3, 2, 0>>, <<1, 0, 0, -1>>, <<-1, 2, 0, 4>>, <<1, 2, 0, 0>>}}
   \cup {Sc(Dress(ReshapeM(<<1, 12>>, t, vc, "accept"), S0(40, Len(t) + t[Len(t)])), Usual(G(1), Ids(1))) : vc \in BOOLEAN, t \in {<<1, 12>>, <<1, -1>>, <<1, 3, 2, 2>>, <<1, 3, -1, 2>>, <<1, 12, 1, 1>>, <<3, 4>>, <<1, 4, 3>>}}
   \cup {Sc(Dress(ReshapeM(sh, <<1, -1>>, FALSE, "accept"), S0(41, sh[2])), Usual(G(1), Ids(1))) : sh \in {<<1, 4, 1, 1>>, <<1, 1, 4, 1>>, <<1, 1, 1, 4>>, <<1, 3, 5>>, <<1, 7, 1>>}}
   \cup {Sc(Dress(ReshapeM(<<1, 4, 1, 1>>, <<1, 4>>, FALSE, "accept"), S0(41, k)), Usual(G(1), Ids(1))) : k \in 1..3}
Flattens == {Sc(Plain(One1(<<1, 2, 3, 4>>, "Flatten", IF a < 0 THEN <<>> ELSE <<A1("axis", a)>>, "accept"), S0(42, a + 2)), Usual(G(1), Ids(1))) : a \in {-1, 0, 1, 2, 3}}
   \cup {Sc(Dress(One1(sh, "Flatten", <<A1("axis", 1)>>, "accept"), S0(42, Len(sh))), Usual(G(1), Ids(1))) : sh \in {<<1, 3, 5>>, <<1, 4, 1, 1>>, <<1, 1, 1, 1>>, <<1, 6>>}}
Squeezes == {Sc(Dress(One1(a[1], "Squeeze", <<AI("axes", a[2])>>, "accept"), S0(43, Len(a[1]) + a[2][1])), Usual(G(1), Ids(1)))
               : a \in {<< <<1, 4, 1, 1>>, <<2, 3>> >>, << <<1, 4, 1, 3>>, <<2>> >>, << <<1, 4, 3, 1>>, <<3>> >>, << <<1, 5, 1>>, <<2>> >>, << <<1, 1, 5>>, <<1>> >>, << <<1, 1, 4, 3>>, <<1>> >>}}
Unsqueezes == {Sc(Dress(One1(a[1], "Unsqueeze", <<AI("axes", a[2])>>, "accept"), S0(44, Len(a[1]) + a[2][1])), Usual(G(1), Ids(1)))
               : a \in {<< <<1, 4>>, <<2>> >>, << <<1, 4>>, <<2, 3>> >>, << <<1, 3, 5>>, <<3>> >>, << <<1, 3, 5>>, <<2>> >>, << <<2, 5>>, <<0>> >>, << <<2, 5>>, <<0, 1>> >>}}
(* operators the importer may not know: refused or right *)
Others == {Bare(One1(<<1, 6>>, op, <<>>, "may"), 5) : op \in {"Neg", "Abs", "Identity", "Dropout"}}
   \cup {Bare(Mdl(<<1, 6>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("o", op, <<"x", "h">>, <<"y">>, <<>>), Nd("z", "Relu", <<"y">>, <<"z">>, <<>>)>>, "z", "may"), 5) : op \in {"Sub", "Max", "Min", "Sum"}}
   \cup {Bare(Mdl(<<1, 6>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("o", "Sum", <<"x", "h", "x">>, <<"y">>, <<>>)>>, "y", "may"), 5)}
(* attributes left to their defaults: refused or right *)
Defaults ==
  {Bare(Mdl(<<1, 2, 5, 6>>, <<InitF("w", <<3, 2, 3, 1>>, H(Seed, -3, 3))>>, <<Nd("c", "Conv", <<"x", "w">>, <<"y">>, at)>>, "y", "may"), Len(at))
     : at \in {<<>>, <<AI("kernel_shape", <<3, 1>>)>>, <<AI("strides", <<2, 1>>)>>, <<AI("strides", <<1, 1>>), AI("pads", <<1, 0, 1, 0>>)>>, <<AS("auto_pad", "NOTSET"), AI("kernel_shape", <<3, 1>>), AI("strides", <<1, 2>>)>>}}
  \cup {Bare(One1(<<1, 2, 5, 6>>, op, at, "may"), Len(at)) : op \in {"MaxPool", "AveragePool"},
        at \in {<<AI("kernel_shape", <<2, 2>>)>>, <<AI("kernel_shape", <<2, 2>>), AI("pads", <<1, 0, 0, 1>>)>>, <<AS("auto_pad", "NOTSET"), AI("kernel_shape", <<2, 2>>), AI("strides", <<1, 2>>)>>,
                <<A1("ceil_mode", 0), AI("kernel_shape", <<2, 2>>), AI("strides", <<2, 2>>)>>}}
(* the same operator twice with different attributes: nothing leaks from one node to the next *)
Twice ==
  {Std(Mdl(<<1, 2, 9, 8>>, <<InitF("w", <<4, 2, 3, 3>>, H(Seed, -2, 2)), InitF("v", <<4, 2, 1, 3>>, H(Seed + 1, -2, 2)), InitF("b", <<4>>, H(Seed + 2, -9, 9))>>,
     IF o = 1 THEN <<Nd("c1", "Conv", <<"x", "w", "b">>, <<"h">>, <<A1("group", 1), AI("kernel_shape", <<3, 3>>), AI("pads", <<1, 1, 1, 1>>), AI("strides", <<2, 1>>)>>),
                     Nd("c2", "Conv", <<"h", "v">>, <<"y">>, <<A1("group", 2), AI("kernel_shape", <<1, 3>>), AI("strides", <<1, 2>>)>>)>>
     ELSE <<Nd("c1", "Conv", <<"x", "w">>, <<"h">>, <<A1("group", 1), AI("kernel_shape", <<3, 3>>), AI("strides", <<1, 1>>)>>),
            Nd("c2", "Conv", <<"h", "v", "b">>, <<"y">>, <<A1("group", 2), AI("kernel_shape", <<1, 3>>), AI("pads", <<0, 1, 1, 0>>), AI("strides", <<1, 1>>)>>)>>, "y", "accept"), S0(50, o)) : o \in 1..2}
  \cup {Std(Mdl(<<1, 2, 8, 9>>, <<>>, <<Nd("p1", op, <<"x">>, <<"h">>, <<AI("kernel_shape", <<2, 2>>)>> \o Opt_("pads", IF o % 2 = 1 THEN <<1, 0, 1, 0>> ELSE <<>>) \o <<AI("strides", <<1, 1>>)>>),
                                       Nd("p2", op, <<"h">>, <<"y">>, <<AI("kernel_shape", <<1, 2>>)>> \o Opt_("pads", IF o >= 2 THEN <<0, 1, 0, 0>> ELSE <<>>) \o <<AI("strides", <<2, 2>>)>>)>>, "y", "accept"), S0(51, o))
         : o \in 0..3, op \in {"MaxPool"}}
(* infinite bounds and values: a bound that never takes effect *)
Infinite ==
  {Sc(Plain(One1(<<1, 20>>, "Clip", <<AO("min", b[1]), AO("max", b[2])>>, "may"), 4), Usual(Ords(Seed, -41, 41), Ords(Seed + 1, -41, 41)))
     : b \in {<<-90, 90>>, <<0, 90>>, <<-90, 18>>, <<-90, -3>>, <<12, 90>>}}
  \cup {Sc(Plain(Mdl(<<1, 2, 3, 2>>, <<>>, <<Nd("p", "Pad", <<"x">>, <<"h">>, <<AS("mode", "constant"), AI("pads", <<0, 0, 1, 0, 0, 0, 2, 1>>), AO("value", v)>>),
                                              Nd("c", "Clip", <<"h">>, <<"y">>, <<AO("min", -20), AO("max", 33)>>)>>, "y", "may"), 4), Usual(Ords(Seed, -41, 41), Ords(Seed + 1, -41, 41)))
     : v \in {90, -90, 17, -17}}
(* dense layers, softmax and rows of other ranks *)
OtherRanks ==
  {Bare(Mdl(sh, <<InitF("w", <<4, 3>>, H(Seed, -5, 5))>>, <<Nd("g", "MatMul", <<"x", "w">>, <<"y">>, <<>>)>>, "y", "may"), Len(sh)) : sh \in {<<1, 1, 4>>, <<1, 2, 4>>, <<1, 1, 1, 4>>, <<1, 3, 2, 4>>}}
  \cup {Sc(Plain(One1(sh, "Softmax", at, "may"), S0(52, Len(sh))), Usual(Latt(S0(53, 1), -30, 30, 0), Latt(S0(54, 2), -20, 20, 7)))
           : sh \in {<<1, 3, 4>>, <<1, 4, 2, 2>>, <<2, 3>>, <<1, 1, 5>>}, at \in {<<>>, <<A1("axis", 0)>>, <<A1("axis", 1)>>, <<A1("axis", -1)>>, <<A1("axis", 2)>>}}
(* the defaults, spelt out *)
SpeltOut ==
  {Bare(ConvM(I4, 2, k, <<1, 2>>, <<1, 0, 1, 0>>, 1, TRUE, S0(55, k[1]), "accept"), k[1]) : k \in {<<3, 3>>, <<1, 3>>}}
  \cup {Bare(One1(<<1, 2, 5, 6>>, op, <<AS("auto_pad", "VALID"), AI("kernel_shape", <<2, 2>>), AI("strides", <<1, 2>>)>>, "may"), 3) : op \in {"MaxPool", "AveragePool"}}
  \cup {Bare(Mdl(<<1, 2, 5, 6>>, <<InitF("w", <<3, 2, 3, 1>>, H(Seed, -3, 3))>>, <<Nd("c", "Conv", <<"x", "w">>, <<"y">>, <<AS("auto_pad", "VALID"), AI("kernel_shape", <<3, 1>>), AI("strides", <<1, 2>>)>>)>>, "y", "may"), 3)}
  \cup {Bare(One1(<<1, 2, 5, 6>>, "MaxPool", <<AI("dilations", <<1, 1>>), AI("kernel_shape", <<2, 2>>), AI("strides", <<1, 2>>)>>, "may"), 3),
         Bare(One1(<<1, 2, 5, 6>>, "MaxPool", <<AI("kernel_shape", <<2, 2>>), A1("storage_order", 0), AI("strides", <<1, 2>>)>>, "may"), 3)}
  (* grouped convolutions of every group count *)
  \cup {Bare(ConvM(<<1, 6, 4, 5>>, co, <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>, g, b, S0(56, g + co), "accept"), g + co) : g \in {1, 2, 3, 6}, co \in {6, 12}, b \in BOOLEAN}
(* sizes beyond those of small networks *)
Wide ==
  {Bare(ConvM(<<1, a[1], 2, 3>>, a[2], a[3], <<1, 1>>, <<>>, a[4], b, S0(60, a[1]), "accept"), a[2]) : b \in BOOLEAN,
     a \in {<<1, 300, <<1, 1>>, 1>>, <<300, 1, <<1, 1>>, 1>>, <<2, 260, <<1, 3>>, 2>>, <<260, 260, <<1, 3>>, 260>>, <<260, 520, <<1, 1>>, 130>>}}
  \cup {Bare(ConvM(<<1, a[1], 5>>, a[2], a[3], <<1>>, <<>>, a[4], b, S0(61, a[1]), "accept"), a[2]) : b \in BOOLEAN,
     a \in {<<1, 300, <<1>>, 1>>, <<300, 1, <<3>>, 1>>, <<1, 280, <<3>>, 1>>, <<260, 260, <<1>>, 260>>}}
  \cup {Bare(ConvM(<<1, 1, 30, 40>>, 2, <<17, 33>>, <<5, 4>>, <<16, 20, 8, 18>>, 1, TRUE, 5, "accept"), 1), Bare(ConvM(<<1, 1, 300>>, 1, <<257>>, <<20>>, <<130, 140>>, 1, TRUE, 5, "accept"), 1)}
  \cup {Bare(MaxM(<<1, 1, 40, 30>>, <<19, 17>>, <<18, 6>>, <<5, 9, 12, 3>>, "accept"), 1), Bare(MaxM(<<1, 260, 3, 3>>, <<2, 2>>, <<1, 1>>, <<>>, "accept"), 1),
         Bare(MaxM(<<1, 2, 300>>, <<65>>, <<33>>, <<40, 20>>, "accept"), 1), Bare(MaxM(<<1, 1, 2, 520>>, <<1, 258>>, <<1, 259>>, <<>>, "accept"), 1)}
  \cup {Sc(Plain(AvgM(<<1, 2, 40, 34>>, <<16, 32>>, <<17, 3>>, <<3, 0, 5, 0>>, 1, "accept"), 1), Usual(G(1), G(2))), Sc(Plain(AvgM(<<1, 2, 300>>, <<64>>, <<40>>, <<20, 10>>, 1, "accept"), 1), Usual(G(1), G(2))),
         Sc(Plain(AvgM(<<1, 300, 2, 2>>, <<2, 2>>, <<1, 1>>, <<>>, 0, "accept"), 1), Usual(G(1), G(2)))}
  \cup {Bare(One1(sh, op, <<>>, "accept"), sh[2]) : sh \in {<<1, 300, 1, 2>>, <<1, 2, 32, 64>>}, op \in {"GlobalMaxPool", "GlobalAveragePool"}}
  \cup {Bare(GemmM(xy[1], xy[2], b, S0(62, xy[1] * 7 + xy[2]), "accept"), xy[1]) : b \in BOOLEAN, xy \in {<<300, 2>>, <<2, 300>>, <<1, 1030>>, <<1030, 1>>, <<70, 80>>}}
  \cup {Bare(MatMulM(xy[1], xy[2], S0(63, xy[1] * 7 + xy[2]), "accept"), xy[1]) : xy \in {<<300, 2>>, <<2, 300>>, <<1, 1030>>, <<1030, 1>>, <<70, 80>>}}
  \cup {Bare(BnM(<<1, 300, 1, 2>>, 7, "accept"), 3), Bare(BnM(<<1, 2, 3, 100>>, 7, "accept"), 3), Bare(BnM(<<1, 300, 2>>, 7, "accept"), 3)}
  \cup {Bare(AddM(sh, sh, FALSE, "may"), 3) : sh \in {<<1, 300, 2, 2>>, <<1, 3, 40, 20>>}} \cup {Bare(AddM(<<1, 1100>>, <<1100>>, FALSE, "accept"), 3)}
  \cup {Bare(CatM(<<1, 130, 1, 2>>, <<"x", "h", "x">>, "accept"), 3), Bare(CatM(<<1, 300>>, <<"h", "x">>, "accept"), 3), Bare(CatM(<<1, 1, 2>>, [i \in 1..40 |-> IF i % 3 = 0 THEN "h" ELSE "x"], "accept"), 3)}
  \cup {Bare(PadM(<<1, 2, 3, 4>>, <<0, 0, 20, 17, 0, 0, 33, 40>>, 5, -1, "accept"), 3), Bare(PadM(<<1, 2, 5>>, <<0, 0, 140, 0, 0, 130>>, 5, -1, "accept"), 3), Bare(PadM(<<1, 260, 1, 1>>, <<0, 0, 1, 0, 0, 0, 0, 1>>, 5, -1, "accept"), 3)}
  \cup {Bare(One1(sh, "Transpose", <<AI("perm", p)>>, "accept"), p[2]) : sh \in {<<1, 33, 20, 3>>, <<1, 2, 3, 260>>}, p \in {<<0, 3, 1, 2>>, <<0, 2, 3, 1>>, <<0, 3, 2, 1>>}}
  \cup {Bare(ReshapeM(<<1, 30, 5, 4>>, t_, FALSE, "accept"), 1) : t_ \in {<<1, 600>>, <<1, 300, 2, 1>>, <<1, -1, 40>>}} \cup {Bare(One1(<<1, 30, 5, 4>>, "Flatten", <<A1("axis", 1)>>, "accept"), 4)}
  \cup {Bare(One1(sh, "Clip", <<AF("max", 5, 0), AF("min", -4, 0)>>, "accept"), 2) : sh \in {<<1, 300, 2, 3>>, <<1, 2, 300>>, <<1, 66000>>}}
  \cup {Bare(One1(sh, "Relu", <<>>, "accept"), 2) : sh \in {<<1, 300, 2, 3>>, <<1, 2, 300>>, <<1, 66000>>}}
  \cup {Bare(MulM(<<1, 300, 2, 3>>, <<>>, 3, -3, "accept"), 2)}
  \cup {Sc(Plain(One1(<<1, n>>, "Softmax", <<A1("axis", 1)>>, "accept"), 2), Usual(Latt(S0(64, n), -30, 30, 0), Latt(S0(65, n), -20, 20, 7))) : n \in {300, 1000}}
GKeys == ({"conv2"} \X {1, 2, 4} \X BOOLEAN) \cup ({"conv1"} \X {1, 2, 4} \X BOOLEAN) \cup ({"avg", "avg1"} \X {-1, 0, 1}) \cup ({"glob"} \X {"GlobalMaxPool", "GlobalAveragePool"})
         \cup ({"z"} \X {"max", "max1", "gemm", "gemmmore", "matmul", "bn", "clip", "relu", "softmax", "lrn", "mul", "add", "cat", "pad", "transpose", "reshape", "flatten", "squeeze", "unsqueeze", "others", "defaults", "twice", "infinite", "ranks", "spelt", "wide"})
GCases(ky) ==
  CASE ky[1] = "conv2" -> ConvCases(ky[2], ky[3])
    [] ky[1] = "conv1" -> Conv1Cases(ky[2], ky[3])
    [] ky[1] = "avg" -> AvgCases(ky[2])
    [] ky[1] = "avg1" -> Avg1Cases(ky[2])
    [] ky[1] = "glob" -> Glob(ky[2])
    [] ky[2] = "max" -> MaxCases [] ky[2] = "max1" -> Max1Cases
    [] ky[2] = "gemm" -> Gemms [] ky[2] = "gemmmore" -> GemmMore [] ky[2] = "matmul" -> MatMuls
    [] ky[2] = "bn" -> Bns [] ky[2] = "clip" -> Clips [] ky[2] = "relu" -> Relus [] ky[2] = "softmax" -> Softmaxes
    [] ky[2] = "lrn" -> Lrns [] ky[2] = "mul" -> Muls [] ky[2] = "add" -> Adds [] ky[2] = "cat" -> Cats
    [] ky[2] = "pad" -> Pads [] ky[2] = "transpose" -> Transposes [] ky[2] = "reshape" -> Reshapes
    [] ky[2] = "flatten" -> Flattens [] ky[2] = "squeeze" -> Squeezes [] ky[2] = "unsqueeze" -> Unsqueezes
    [] ky[2] = "others" -> Others [] ky[2] = "defaults" -> Defaults [] ky[2] = "twice" -> Twice
    [] ky[2] = "infinite" -> Infinite [] ky[2] = "ranks" -> OtherRanks [] ky[2] = "spelt" -> SpeltOut [] ky[2] = "wide" -> Wide
=============================================================================
