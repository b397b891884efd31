------------------------------- MODULE GenC28 -------------------------------
(* C28: creating, loading, running and destroying generated networks, and the stand-alone programs *)
EXTENDS PicoModels
S0(a, b) == (Seed * 5323) + (a * 113) + b
Q == Tier = 0
X4 == <<1, 2, 4, 3>>
X3 == <<1, 2, 6>>
Rl(n, i, o) == Nd(n, "Relu", <<i>>, <<o>>, <<>>)
CvN(n, i, w, b, o, k, pd, st, g) == Nd(n, "Conv", IF b = "" THEN <<i, w>> ELSE <<i, w, b>>, <<o>>, <<A1("group", g), AI("kernel_shape", k)>> \o Opt_("pads", pd) \o <<AI("strides", st)>>)
M1(insh, nd) == Mdl(insh, <<>>, <<nd>>, "y", "accept")
(* a small network: convolution, pooling, reshape, dense layer *)
Small == Mdl(<<1, 1, 6, 6>>, <<InitF("w", <<2, 1, 3, 3>>, H(Seed, -2, 2)), InitF("b", <<2>>, H(Seed + 1, -9, 9)), InitF("v", <<3, 8>>, H(Seed + 2, -2, 2)), InitF("c", <<3>>, H(Seed + 3, -9, 9)), InitN("t", <<1, -1>>)>>,
     <<CvN("c1", "x", "w", "b", "h1", <<3, 3>>, <<>>, <<1, 1>>, 1), Rl("r1", "h1", "h2"), Nd("p1", "MaxPool", <<"h2">>, <<"h3">>, <<AI("kernel_shape", <<2, 2>>), AI("strides", <<2, 2>>)>>),
       Nd("rs", "Reshape", <<"h3", "t">>, <<"h4">>, <<>>), GemmN("g", "h4", "v", "c", "y")>>, "y", "accept")
(* no parameters at all *)
Bare0 == Mdl(<<1, 5>>, <<>>, <<Rl("r", "x", "h"), Nd("a", "Add", <<"x", "h">>, <<"y">>, <<>>)>>, "y", "accept")
(* branches, a no-op, one parameter used twice *)
Branchy == Mdl(<<1, 2, 3, 3>>, <<InitF("w", <<2, 2, 1, 1>>, H(Seed, -2, 2)), InitF("b", <<2>>, H(Seed + 1, -9, 9)), InitN("t", <<1, 2, 3, 3>>)>>,
     <<CvN("c1", "x", "w", "b", "h1", <<1, 1>>, <<>>, <<1, 1>>, 1), Nd("n", "Reshape", <<"h1", "t">>, <<"h2">>, <<>>), CvN("c2", "h2", "w", "", "h3", <<1, 1>>, <<>>, <<1, 1>>, 1),
       Nd("k", "Concat", <<"h3", "h2", "x">>, <<"h4">>, <<A1("axis", 1)>>), Nd("p", "AveragePool", <<"h4">>, <<"h5">>, <<A1("count_include_pad", 1), AI("kernel_shape", <<2, 2>>), AI("pads", <<1, 0, 0, 1>>), AI("strides", <<1, 1>>)>>),
       Nd("g", "GlobalMaxPool", <<"h5">>, <<"h6">>, <<>>), Nd("f", "Flatten", <<"h6">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept")

(* ---- all histories ---- *)
(* st: state of instance 1 and 2: "no", "new", "loaded" *)
Gn(k) == IF k = 1 THEN H(S0(1, 1), -9, 9) ELSE H(S0(1, 2), -9, 9)
StepsFrom(st) ==
  {<<HNew(i), [st EXCEPT ![i] = "new"]>> : i \in {i \in 1..2 : st[i] = "no" /\ (i = 1 \/ st[1] # "no")}}
  \cup {<<HLoad(i), [st EXCEPT ![i] = "loaded"]>> : i \in {i \in 1..2 : st[i] # "no"}}
  \cup {<<HRun(ig[1], Gn(ig[2])), st>> : ig \in {ig \in (1..2) \X (1..2) : st[ig[1]] = "loaded"}}
  \cup {<<HDel(i), [st EXCEPT ![i] = "no"]>> : i \in {i \in 1..2 : st[i] # "no"}}
RECURSIVE HistsOf(_, _)
Closing(st) == (IF st[1] # "no" THEN <<HDel(1)>> ELSE <<>>) \o (IF st[2] # "no" THEN <<HDel(2)>> ELSE <<>>)
HistsOf(st, n) == {Closing(st)} \cup (IF n = 0 THEN {} ELSE UNION {{<<e[1]>> \o h : h \in HistsOf(e[2], n - 1)} : e \in StepsFrom(st)})
AllHists(n) == {h \in HistsOf(<<"no", "no">>, n) : h # <<>>}
(* those starting with the given two steps, to spread the work *)
Hists(M, n) == {Sc(M, h) : h \in AllHists(n)}
(* a long life *)
LongLife(M) == Sc(M, <<HNew(1), HLoad(1)>> \o [k \in 1..40 |-> HRun(1, H(S0(2, k % 5), -9, 9))] \o <<HDel(1), HNew(1), HLoad(1), HRun(1, H(S0(2, 1), -9, 9)), HDel(1)>>)
ManyLives(M) == Sc(M, FlattenSeq([k \in 1..12 |-> <<HNew(k), HLoad(k)>>]) \o [k \in 1..12 |-> HRun(13 - k, H(S0(3, k % 3), -9, 9))] \o [k \in 1..12 |-> HDel(((k * 5) % 12) + 1)])

(* networks of many tensors: everything goes with them *)
DeepM(n) == LET V(k) == IF k = 0 THEN "x" ELSE "v" \o ToString(k) IN
  Mdl(<<1, 3>>, [k \in 1..n |-> IF k % 2 = 1 THEN InitF("w" \o ToString(k), <<3, 3>>, H(Seed + k, -1, 1)) ELSE InitF("b" \o ToString(k), <<3>>, H(Seed + k, -9, 9))],
      [k \in 1..n |-> IF k % 2 = 1 THEN GemmN("g" \o ToString(k), V(k - 1), "w" \o ToString(k), "", V(k)) ELSE Nd("a" \o ToString(k), "Add", <<V(k - 1), "b" \o ToString(k)>>, <<V(k)>>, <<>>)], V(n), "accept")
Deeps == {Sc(DeepM(n), <<HNew(1), HLoad(1), HDel(1), HNew(1), HDel(1)>>) : n \in {7, 24, 60, 140}}

(* ---- every operator, three histories ---- *)
Three(M) == LET P == Plain(M, S0(4, Len(M.nodes))) IN
  {Sc(P, <<HNew(1), HDel(1)>>), Sc(P, <<HNew(1), HLoad(1), HRun(1, Gn(1)), HRun(1, Gn(2)), HRun(1, Gn(1)), HDel(1)>>),
   Sc(P, <<HNew(1), HNew(2), HLoad(2), HRun(2, Gn(1)), HLoad(1), HRun(1, Gn(2)), HLoad(1), HDel(2), HRun(1, Gn(1)), HDel(1)>>)}
OpModels ==
  {ConvM(X4, 4, k, <<1, 2>>, pd, g, b, S0(5, g), "accept") : k \in {<<1, 1>>, <<3, 3>>}, pd \in {<<>>, <<1, 0, 2, 1>>}, g \in {1, 2}, b \in BOOLEAN}
  \cup {ConvM(X3, 4, <<3>>, <<s>>, pd, g, b, S0(6, g), "accept") : s \in {1, 2}, pd \in {<<>>, <<1, 0>>}, g \in {1, 2}, b \in BOOLEAN}
  \cup {MaxM(X4, <<2, 2>>, <<1, 2>>, pd, "accept") : pd \in {<<>>, <<1, 0, 1, 1>>}} \cup {MaxM(X3, <<2>>, <<2>>, pd, "accept") : pd \in {<<>>, <<1, 0>>}}
  \cup {AvgM(X4, <<2, 2>>, <<1, 2>>, pd, i, "accept") : pd \in {<<>>, <<1, 0, 1, 1>>}, i \in {0, 1}} \cup {AvgM(X3, <<2>>, <<2>>, pd, i, "accept") : pd \in {<<0, 0>>, <<1, 0>>}, i \in {0, 1}}
  \cup {One1(X4, op, <<>>, "accept") : op \in {"GlobalMaxPool", "GlobalAveragePool"}}
  \cup {GemmM(5, 3, b, S0(7, 1), "accept") : b \in BOOLEAN} \cup {MatMulM(5, 3, S0(7, 2), "accept")}
  \cup {BnM(sh, S0(8, 1), "accept") : sh \in {X4, X3}}
  \cup {One1(sh, "Relu", <<>>, "accept") : sh \in {X4, X3, <<1, 5>>, <<2, 5>>}}
  \cup {One1(sh, "Clip", <<AF("max", 6, 0), AF("min", -2, 0)>>, "accept") : sh \in {X4, <<1, 5>>}}
  \cup {One1(X4, "LRN", <<AF("alpha", 1, -3), AF("beta", 3, -2), AF("bias", 1, 0), A1("size", 3)>>, "accept")}
  \cup {Mdl(sh, <<InitS("f", 3, -1)>>, <<Nd("m", "Mul", <<"x", "f">>, <<"y">>, <<>>)>>, "y", "accept") : sh \in {X4, <<1, 5>>}}
  \cup {Mdl(<<1, 5>>, <<InitF("b", <<5>>, H(3, -9, 9))>>, <<Nd("a", "Add", <<"x", "b">>, <<"y">>, <<>>)>>, "y", "accept")}
  \cup {Mdl(sh, <<>>, <<Rl("r", "x", "h"), Nd("a", op, <<"x", "h">>, <<"y">>, IF op = "Add" THEN <<>> ELSE <<A1("axis", 1)>>)>>, "y", "accept") : op \in {"Add", "Concat"}, sh \in {X4, X3, <<1, 5>>}}
  \cup {PadM(X4, <<0, 0, 1, 2, 0, 0, 0, 1>>, 5, -1, "accept"), PadM(X3, <<0, 0, 1, 0, 0, 2>>, 0, 0, "accept"), PadM(<<2, 3>>, <<1, 2, 0, 1>>, 0, 0, "accept")}
  \cup {One1(X4, "Transpose", <<AI("perm", <<0, 2, 3, 1>>)>>, "accept"), One1(<<2, 5>>, "Transpose", <<AI("perm", <<1, 0>>)>>, "accept")}
  \cup {Mdl(<<1, 4>>, <<InitF("w", <<6, 4>>, H(Seed, -5, 5))>>, <<Nd("t", "Transpose", <<"w">>, <<"wt">>, <<AI("perm", <<1, 0>>)>>), Nd("mm", "MatMul", <<"x", "wt">>, <<"y">>, <<>>)>>, "y", "accept")}
  \cup {ReshapeM(X4, t, vc, "accept") : t \in {<<1, 24>>, <<1, 2, 4, 3>>, <<1, 4, 2, 3>>, <<1, 2, 12>>}, vc \in BOOLEAN}
  \cup {One1(X4, "Flatten", <<A1("axis", 1)>>, "accept"), One1(<<1, 5, 1>>, "Squeeze", <<AI("axes", <<2>>)>>, "accept"), One1(<<1, 5>>, "Unsqueeze", <<AI("axes", <<2>>)>>, "accept")}
SoftM == Mdl(<<1, 6>>, <<>>, <<Nd("s", "Softmax", <<"x">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept")
Soft3 == LET P == Plain(SoftM, 1) g == Latt(S0(9, 1), -30, 30, 0) h == Latt(S0(9, 2), -9, 9, 0) IN
  {Sc(P, <<HNew(1), HLoad(1), HRun(1, g), HRun(1, h), HRun(1, g), HDel(1)>>), Sc(P, <<HNew(1), HDel(1)>>)}

(* ---- stand-alone programs ---- *)
NotNumbers == <<1000000, 1000001, 1000002>>     \* the reference holds a NaN, an infinity of either sign (see PicoImport)
FilesBad == {"noweights", "cutweights", "noinput", "noref", "badinput", "badref"}
MainHist(g, n) == <<HMain("dummy_input", g, "ok", 1, 0), HMain("dummy_input", g, "longpaths", 1, 0), HMain("reference_input", g, "longpaths", 1, 1), HMain("reference_input", g, "longpaths", n, 9), HMain("dummy_input", g, "noweights", 1, 0), HMain("dummy_input", g, "cutweights", 1, 0)>>
   \o [k \in 1..8 |-> HMain("reference_input", g, "ok", 1 + (((k * 7) + n) % n), <<0, 2, -2, 3, -3, 2048, -2048, 100000>>[k])]
   \o [k \in 1..3 |-> HMain("reference_input", g, "ok", 1 + (((k * 5) + n) % n), NotNumbers[k])]
   \o <<HMain("reference_input", g, "ok", 1, 5), HMain("reference_input", g, "ok", n, -5)>>
   \o <<HMain("reference_input", g, "noweights", 1, 0), HMain("reference_input", g, "cutweights", 1, 0), HMain("reference_input", g, "noinput", 1, 0), HMain("reference_input", g, "noref", 1, 0),
        HMain("reference_input", g, "badinput", 1, 0), HMain("reference_input", g, "badref", 1, 0)>>
(* many outputs, and large ones: every one of them counts, by its absolute difference *)
WideM == Mdl(<<1, 300>>, <<InitS("f", 3, 0)>>, <<Nd("m", "Mul", <<"x", "f">>, <<"y">>, <<>>)>>, "y", "accept")
WideHist(g) == <<HMain("dummy_input", g, "ok", 1, 0)>> \o [k \in 1..12 |-> HMain("reference_input", g, "ok", <<1, 300, 299, 257, 256, 129, 128, 65, 64, 33, 150, 300>>[k], <<3, 3, -3, 3, -3, 3, -3, 3, -3, 3, 2, -2>>[k])]
MainM == <<Small, Bare0, Branchy, GemmM(5, 3, TRUE, S0(10, 1), "accept"), Final(ConvM(X3, 4, <<3>>, <<2>>, <<1, 0>>, 2, TRUE, S0(10, 2), "accept")),
           Final(MaxM(X4, <<2, 2>>, <<1, 2>>, <<1, 0, 1, 1>>, "accept"))>>
OutN(M) == LET sh == LastSh(M) IN Prod(sh)
Mains(k) == LET M == MainM[k] IN {Sc(M, MainHist(H(S0(11, k), -9, 9), OutN(M)))}
Depth == IF Q THEN 5 ELSE 6
GKeys == ({"all"} \X (1..3)) \cup ({"main"} \X (1..6)) \cup ({"ops"} \X (1..4)) \cup {<<"long", 1>>, <<"main", 7>>, <<"deep", 1>>}
GCases(ky) ==
  CASE ky[1] = "all" -> Hists(<<Small, Bare0, Branchy>>[ky[2]], IF ky[2] = 1 THEN Depth ELSE Depth - 1)
    [] ky[1] = "main" -> IF ky[2] = 7 THEN {Sc(WideM, WideHist(H(S0(12, 7), -2600, 2600)))} ELSE Mains(ky[2])
    [] ky[1] = "deep" -> Deeps
    [] ky[1] = "ops" -> UNION {Three(M) : M \in {M \in OpModels : (Len(M.inits) + Len(M.nodes[1].at) + M.inp[1].sh[2]) % 4 = ky[2] - 1}} \cup (IF ky[2] = 1 THEN Soft3 ELSE {})
    [] ky[1] = "long" -> {LongLife(M) : M \in {Small, Bare0, Branchy}} \cup {ManyLives(M) : M \in {Small, Bare0, Branchy}}
=============================================================================
