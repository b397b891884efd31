----------------------------- MODULE PicoModels -----------------------------
(* Building models and scenarios for PicoImport *)
EXTENDS PicoImport
CONSTANTS Seed, Tier

InitF(id, sh, gen) == [id |-> id, k |-> "f", t |-> Fill(Zeros(sh), gen)]
InitS(id, v, x)    == [id |-> id, k |-> "f", t |-> [Mk(<<>>, <<v>>) EXCEPT !.x = x]]       \* rank 0
InitN(id, v)       == [id |-> id, k |-> "n", t |-> Mk(<<Len(v)>>, v)]
InitN0(id, v)      == [id |-> id, k |-> "n", t |-> Mk(<<>>, <<v>>)]
In1(id, sh)        == [id |-> id, sh |-> sh]
Mdl(insh, inits, nodes, out, cls) ==
  [nm |-> "net", inp |-> <<In1("x", insh)>>, outs |-> <<out>>, nodes |-> nodes, inits |-> inits, vi |-> "all", cls |-> cls, inin |-> FALSE]

(* ---- naming styles: how the file spells value and node names ---- *)
ValName(s, id) == CASE s = 0 -> id [] s = 1 -> id \o ":0" [] s = 2 -> "net/" \o id \o "/out.1" [] s = 3 -> "7" \o id
NodeName(s, n) == CASE s = 0 -> n [] s = 1 -> "layer." \o n [] s = 2 -> "net/" \o n \o "/Op:0" [] s = 3 -> ""
Rename(s, M) ==
  LET V(id) == IF id = "" THEN "" ELSE ValName(s, id)
      Vs(q) == [i \in 1..Len(q) |-> V(q[i])]
  IN [M EXCEPT !.inp = [i \in 1..Len(@) |-> [@[i] EXCEPT !.id = V(@)]],
               !.outs = Vs(@),
               !.inits = [i \in 1..Len(@) |-> [@[i] EXCEPT !.id = V(@)]],
               !.nodes = [i \in 1..Len(@) |-> [@[i] EXCEPT !.n = NodeName(s, @), !.ins = Vs(@), !.outs = Vs(@)]]]

(* make the output a row: append a Flatten where it is not *)
LastSh(M) == Static(M).s[M.outs[1]]
Final(M) ==
  LET sh == LastSh(M) IN
  IF Len(sh) = 2 THEN M
  ELSE [M EXCEPT !.nodes = Append(@, Nd("fin", "Flatten", <<M.outs[1]>>, <<"fin">>, <<A1("axis", IF sh[1] = 1 THEN 1 ELSE 0)>>)),
                 !.outs = <<"fin">>]
(* put a Relu in front of the node sequence: the operator no longer reads the network input *)
After(M) ==
  LET S(q) == [i \in 1..Len(q) |-> IF q[i] = "x" THEN "pre" ELSE q[i]] IN
  [M EXCEPT !.nodes = <<Nd("pre", "Relu", <<"x">>, <<"pre">>, <<>>)>> \o [i \in 1..Len(@) |-> [@[i] EXCEPT !.ins = S(@)]]]
(* and a Clip behind it *)
Before(M) ==
  [M EXCEPT !.nodes = Append(@, Nd("post", "Clip", <<M.outs[1]>>, <<"post">>, <<AF("min", -50, 0), AF("max", 60, 0)>>)), !.outs = <<"post">>]

Sc(M, hist) == [m |-> M, hist |-> hist]
Dress(M, s) ==   \* position and naming chosen by the seed
  LET p == Rnd(s, 901, 0, 3)
      A == IF p % 2 = 1 THEN After(M) ELSE M
      B == IF p >= 2 THEN Before(A) ELSE A
      F == Final(B)
      R == Rename(Rnd(s, 902, 0, 3), F)
  IN [R EXCEPT !.inin = (Rnd(s, 903, 0, 1) = 1)]
Plain(M, s) == LET F == Final(M) IN [Rename(Rnd(s, 902, 0, 3), F) EXCEPT !.inin = (Rnd(s, 903, 0, 1) = 1)]
G(s) == H(s, -9, 9)
Std(M, s) == Sc(Dress(M, s), Usual(G(s + 1), G(s + 2)))
Bare(M, s) == Sc(Plain(M, s), Usual(G(s + 1), G(s + 2)))
BareG(M, s, g1, g2) == Sc(Plain(M, s), Usual(g1, g2))

(* ---- single operators reading x and writing y ---- *)
Opt_(n, v) == IF v = <<>> THEN <<>> ELSE <<AI(n, v)>>
ConvM(insh, cout, k, st, pd, g, bias, s, cls) ==
  Mdl(insh, <<InitF("w", <<cout, insh[2] \div g>> \o k, H(s, -3, 3))>> \o (IF bias THEN <<InitF("b", <<cout>>, H(s + 5, -20, 20))>> ELSE <<>>),
      <<Nd("c", "Conv", IF bias THEN <<"x", "w", "b">> ELSE <<"x", "w">>, <<"y">>,
           <<AI("dilations", Ones(Len(k))), A1("group", g), AI("kernel_shape", k)>> \o Opt_("pads", pd) \o <<AI("strides", st)>>)>>, "y", cls)
MaxM(insh, k, st, pd, cls) == Mdl(insh, <<>>, <<Nd("p", "MaxPool", <<"x">>, <<"y">>, <<AI("kernel_shape", k)>> \o Opt_("pads", pd) \o <<AI("strides", st)>>)>>, "y", cls)
(* incl: -1 attribute absent *)
AvgM(insh, k, st, pd, incl, cls) ==
  Mdl(insh, <<>>, <<Nd("p", "AveragePool", <<"x">>, <<"y">>, (IF incl < 0 THEN <<>> ELSE <<A1("count_include_pad", incl)>>) \o <<AI("kernel_shape", k)>>
      \o Opt_("pads", pd) \o <<AI("strides", st)>>)>>, "y", cls)
GemmN(n, i, w, b, o) == Nd(n, "Gemm", IF b = "" THEN <<i, w>> ELSE <<i, w, b>>, <<o>>, <<AF("alpha", 1, 0), AF("beta", 1, 0), A1("transB", 1)>>)
GemmM(x, y, bias, s, cls) ==
  Mdl(<<1, x>>, <<InitF("w", <<y, x>>, H(s, -5, 5))>> \o (IF bias THEN <<InitF("b", <<y>>, H(s + 5, -50, 50))>> ELSE <<>>),
      <<GemmN("g", "x", "w", IF bias THEN "b" ELSE "", "y")>>, "y", cls)
MatMulM(x, y, s, cls) == Mdl(<<1, x>>, <<InitF("w", <<x, y>>, H(s, -5, 5))>>, <<Nd("mm", "MatMul", <<"x", "w">>, <<"y">>, <<>>)>>, "y", cls)
(* batch norm: variance + epsilon is a power of four; epsilon = 2^-10 *)
VarPick(s, n) == [Mk(<<n>>, TLCEval([i \in 1..n |-> Choose(s, i, <<255, 1023, 4095, 16383>>)])) EXCEPT !.x = -10]
BnInits(c, s) == <<InitF("gamma", <<c>>, HX(s, -9, 9, -1)), InitF("beta", <<c>>, HX(s + 1, -9, 9, -2)), InitF("mean", <<c>>, HX(s + 2, -9, 9, -1)),
                   [id |-> "var", k |-> "f", t |-> VarPick(s + 3, c)]>>
BnN(i, o) == Nd("bn", "BatchNormalization", <<i, "gamma", "beta", "mean", "var">>, <<o>>, <<AF("epsilon", 1, -10), AF("momentum", 15099494, -24)>>)
BnM(insh, s, cls) == Mdl(insh, BnInits(insh[2], s), <<BnN("x", "y")>>, "y", cls)
One1(insh, op, at, cls) == Mdl(insh, <<>>, <<Nd("op", op, <<"x">>, <<"y">>, at)>>, "y", cls)
ReshapeM(insh, tgt, viaConst, cls) ==
  IF viaConst THEN Mdl(insh, <<>>, <<Nd("k", "Constant", <<>>, <<"tgt">>, <<AT("value", <<Len(tgt)>>, tgt)>>), Nd("r", "Reshape", <<"x", "tgt">>, <<"y">>, <<>>)>>, "y", cls)
  ELSE Mdl(insh, <<InitN("tgt", tgt)>>, <<Nd("r", "Reshape", <<"x", "tgt">>, <<"y">>, <<>>)>>, "y", cls)
PadM(insh, pd, v, x, cls) == One1(insh, "Pad", <<AS("mode", "constant"), AI("pads", pd), AF("value", v, x)>>, cls)
Accepted == TRUE
=============================================================================
