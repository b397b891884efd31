------------------------------- MODULE GenC34 -------------------------------
(* C34: lifecycles.  Whoever creates a tensor or layer deletes it; every
   scenario deletes all it created, in every order the parts allow, and is
   balanced: nothing is live at its end (invariant Balanced), so nothing may
   stay allocated in the library either.                                    *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
S0(a, b) == (Seed * 6173) + (a * 151) + b
Q == Tier = 0

(* kind: layer, parameter tensors [id, shape, contents], input shape, output shape *)
Par(id, sh) == [id |-> id, sh |-> sh, g |-> H(Len(sh), -3, 3)]
One1P(id, sh) == [id |-> id, sh |-> sh, g |-> Const(1)]
K(L, ps, in, o) == [l |-> L, ps |-> ps, in |-> in, out |-> o]
Img == <<1, 2, 5, 4>>
Row == <<1, 2, 7>>
Kinds == <<
  K(LConv("w", "b", <<>>, <<1, 1>>, 1), <<Par("w", <<3, 2, 3, 3>>), Par("b", <<3>>)>>, Img, <<1, 3, 3, 2>>),
  K(LConv("w", "", <<1, 0, 2, 1>>, <<2, 1>>, 1), <<Par("w", <<2, 2, 3, 3>>)>>, Img, <<1, 2, 3, 3>>),
  K(LConv("w", "b", <<1, 1, 1, 1>>, <<1, 1>>, 2), <<Par("w", <<4, 1, 3, 3>>), Par("b", <<4>>)>>, Img, <<1, 4, 5, 4>>),
  K(LConv("w", "b", <<1, 1>>, <<1>>, 1), <<Par("w", <<2, 2, 3>>), Par("b", <<2>>)>>, Row, <<1, 2, 7>>),
  K(LConv("w", "", <<>>, <<2>>, 1), <<Par("w", <<1, 2, 3>>)>>, Row, <<1, 1, 3>>),
  K(LMax(<<2, 2>>, <<1, 1>>, <<>>), <<>>, Img, <<1, 2, 4, 3>>), K(LMax(<<3, 2>>, <<2, 2>>, <<1, 1, 1, 1>>), <<>>, Img, <<1, 2, 3, 3>>),
  K(LMax(<<2>>, <<1>>, <<1, 0>>), <<>>, Row, <<1, 2, 7>>),
  K(LAvg(<<2, 2>>, <<1, 1>>, <<>>, TRUE), <<>>, Img, <<1, 2, 4, 3>>), K(LAvg(<<2, 3>>, <<1, 1>>, <<1, 1, 0, 1>>, FALSE), <<>>, Img, <<1, 2, 5, 4>>),
  K(LAvg(<<3>>, <<1>>, <<1, 1>>, TRUE), <<>>, Row, <<1, 2, 7>>),
  K(LGMax, <<>>, Img, <<1, 2, 1, 1>>), K(LGAvg, <<>>, Img, <<1, 2, 1, 1>>), K(LGMax, <<>>, Row, <<1, 2, 1>>),
  K(LFc("w", "b"), <<Par("w", <<3, 4>>), Par("b", <<3>>)>>, <<1, 4>>, <<1, 3>>), K(LFc("w", ""), <<Par("w", <<3, 4>>)>>, <<1, 4>>, <<1, 3>>),
  K(LMatMul("w"), <<Par("w", <<4, 3>>)>>, <<1, 4>>, <<1, 3>>),
  K(LBn("g", "b", "m", "v", 0, 0, <<1, 1>>, 0), <<Par("g", <<2>>), Par("b", <<2>>), Par("m", <<2>>), One1P("v", <<2>>)>>, Img, Img),
  K(LBn("g", "b", "m", "v", 0, 0, <<1, 1>>, 0), <<Par("g", <<2>>), Par("b", <<2>>), Par("m", <<2>>), One1P("v", <<2>>)>>, Row, Row),
  K(LIdent, <<>>, Img, Img), K(LReLU, <<>>, Img, Img), K(LLeaky(1, 2), <<>>, Row, Row), K(LPReLU("s"), <<Par("s", Img)>>, Img, Img), K(LClip(-4, 5, "i"), <<>>, Img, Img),
  K(LSigmoid, <<>>, <<1, 6>>, <<1, 6>>), K(LTanh, <<>>, <<1, 6>>, <<1, 6>>), K(LSoftmax, <<>>, <<1, 6>>, <<1, 6>>), K(LLrn(1, 2, 4, 3), <<>>, Img, Img) >>
Lattice == {"sigmoid", "tanh", "softmax"}
InG(k, s) == IF Kinds[k].l.kind \in Lattice THEN Latt(s, -12, 12, 0) ELSE H(s, -9, 9)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Gone == Perms({"layer", "params", "in", "out"})
Params(k) == FlattenSeq([i \in 1..Len(Kinds[k].ps) |-> NewF(Kinds[k].ps[i].id, Kinds[k].ps[i].sh, Kinds[k].ps[i].g)])
NoParams(k) == [i \in 1..Len(Kinds[k].ps) |-> Free(Kinds[k].ps[Len(Kinds[k].ps) + 1 - i].id)]
Part(k, p) == CASE p = "layer" -> <<DelA("l")>> [] p = "params" -> NoParams(k) [] p = "in" -> <<Free("in")>> [] OTHER -> <<Free("out")>>
Times(n, s) == FlattenSeq([i \in 1..n |-> s])
(* one layer: n runs, then everything goes in the given order *)
Life(k, n, order, s) ==
  Params(k) \o <<MkA("l", Kinds[k].l)>> \o NewF("in", Kinds[k].in, InG(k, s)) \o NewF("out", Kinds[k].out, H(s + 1, -99, 99))
  \o Times(n, <<RunA("l", "in", "out")>>) \o FlattenSeq([i \in 1..4 |-> Part(k, order[i])])
(* two layers over the same parameters; one goes while the other works on *)
Twins(k, s) ==
  Params(k) \o <<MkA("l", Kinds[k].l), MkA("m", Kinds[k].l)>> \o NewF("in", Kinds[k].in, InG(k, s)) \o NewF("out", Kinds[k].out, H(s + 1, -99, 99))
  \o <<RunA("l", "in", "out"), DelA("l"), RunA("m", "in", "out"), MkA("l", Kinds[k].l), DelA("m"), RunA("l", "in", "out"), DelA("l")>>
  \o NoParams(k) \o <<Free("out"), Free("in")>>
(* the layer stays, its input and output tensors come and go *)
Fresh(k, s) ==
  Params(k) \o <<MkA("l", Kinds[k].l)>>
  \o Times(3, NewF("in", Kinds[k].in, InG(k, s)) \o NewF("out", Kinds[k].out, H(s + 1, -99, 99)) \o <<RunA("l", "in", "out"), RunA("l", "in", "out"), Free("in"), Free("out")>>)
  \o <<DelA("l")>> \o NoParams(k)
(* tensors alone *)
Shapes == {<<4>>, <<3, 2>>, <<2, 3, 4>>, <<2, 2, 3, 2>>}
Padded(sh, p) == CASE Len(sh) = 2 -> <<sh[1] + p[1] + p[3], sh[2] + p[2] + p[4]>> [] Len(sh) = 3 -> <<sh[1], sh[2], sh[3] + p[1] + p[2]>>
                   [] OTHER -> <<sh[1], sh[2], sh[3] + p[1] + p[3], sh[4] + p[2] + p[4]>>
PadOf(sh, s) == IF Len(sh) = 3 THEN <<Rnd(s, 1, 0, 3), Rnd(s, 2, 0, 3)>> ELSE <<Rnd(s, 1, 0, 3), Rnd(s, 2, 0, 3), Rnd(s, 3, 0, 3), Rnd(s, 4, 0, 3)>>
Tensors(sh, s) ==
  LET p == PadOf(sh, s) IN
  NewF("x", sh, H(s, -9, 9)) \o NewF("y", sh, H(s + 1, -9, 9)) \o <<AddA("x", "y"), EqA("x", "y"), CopyA("x", "y"), EqA("x", "y"), MulA("x", "y", 3, 0)>>
  \o (IF Len(sh) = 1 THEN <<>> ELSE <<PadNew("x", "p", p, 2), Free("p"), PadNew("x", "p", p, 0), New("q", Padded(sh, p)), PadInto("x", "q", p, 5), Free("q"), Free("p")>>)
  \o (IF Len(sh) < 2 THEN <<>> ELSE <<New("k", [sh EXCEPT ![2] = 2 * @]), CatA(<<"x", "y">>, "k", 1), ShowA("k", "plain"), Free("k")>>)
  \o <<Free(IF s % 2 = 0 THEN "x" ELSE "y"), Free(IF s % 2 = 0 THEN "y" ELSE "x")>>

Balanced == Finished => (out.k = "die" \/ (DOMAIN st = {} /\ DOMAIN ly = {}))

GKeys == {<<"life", k, n>> : k \in 1..Len(Kinds), n \in 0..(IF Q THEN 2 ELSE 6)} \cup {<<"twin", k, 0>> : k \in 1..Len(Kinds)} \cup {<<"fresh", k, 0>> : k \in 1..Len(Kinds)}
         \cup {<<"tens", i, 0>> : i \in 1..(IF Q THEN 40 ELSE 400)}
GCases(ky) == CASE ky[1] = "life" -> {Life(ky[2], ky[3], o, S0(ky[2], ky[3])) : o \in Gone}
                [] ky[1] = "twin" -> {Twins(ky[2], S0(50, ky[2]))}
                [] ky[1] = "fresh" -> {Fresh(ky[2], S0(60, ky[2]))}
                [] ky[1] = "tens" -> {Tensors(sh, S0(70, ky[2])) : sh \in Shapes}
=============================================================================
