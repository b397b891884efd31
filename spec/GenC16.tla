------------------------------- MODULE GenC16 -------------------------------
(* C16: random histories in a world of many layers of all kinds that share
   weights, inputs and input shapes: a run is a function of construction
   parameters, current parameter tensors and current input, nothing else.    *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

NHist == IF Tier = 0 THEN 160 ELSE 1200
NSteps == IF Tier = 0 THEN 60 ELSE 120

(* the geometry of a world *)
World(s) ==
  LET c == Rnd(s, 1, 1, 3) IN
  [c |-> c,
   a |-> <<1, c, Rnd(s, 2, 3, 5), Rnd(s, 3, 3, 5)>>,      \* one input shape ...
   b |-> <<1, c, Rnd(s, 4, 3, 5), Rnd(s, 5, 4, 6)>>,      \* ... and another one for the same layers
   t |-> <<1, c, Rnd(s, 6, 3, 8)>>, u |-> <<1, c, Rnd(s, 7, 3, 8)>>,
   n |-> Rnd(s, 8, 1, 6), m |-> Rnd(s, 9, 1, 5),
   k |-> Choose(s, 10, <<1, 3>>), co |-> Rnd(s, 11, 1, 3) * c,
   g |-> IF Rnd(s, 12, 0, 1) = 0 THEN 1 ELSE c,
   std |-> [i \in 1..c |-> Rnd(s, 40 + i, 1, 3)]]

Pd(s, i, mx) == IF Rnd(s, i, 0, 2) = 0 THEN <<>> ELSE <<Rnd(s, i + 1, 0, mx), Rnd(s, i + 2, 0, mx), Rnd(s, i + 3, 0, mx), Rnd(s, i + 4, 0, mx)>>
Pd2(s, i, mx) == IF Rnd(s, i, 0, 2) = 0 THEN <<>> ELSE <<Rnd(s, i + 1, 0, mx), Rnd(s, i + 2, 0, mx)>>
St(s, i) == <<Rnd(s, i, 1, 3), Rnd(s, i + 1, 1, 3)>>

(* name of layer -> its record; two layers of each kind with different parameters *)
Layers(W, s) ==
  ("ca" :> LConv("w4", "b4", Pd(s, 100, 1), St(s, 105), W.g)) @@
  ("cb" :> LConv("w4", "", Pd(s, 110, 2), St(s, 115), W.g)) @@
  ("da" :> LConv("w3", "b4", Pd2(s, 120, 1), <<Rnd(s, 125, 1, 2)>>, W.g)) @@
  ("db" :> LConv("w3", "", Pd2(s, 130, 2), <<Rnd(s, 135, 1, 3)>>, W.g)) @@
  ("ma" :> LMax(<<2, 3>>, St(s, 140), Pd(s, 142, 1))) @@
  ("mb" :> LMax(<<3, 1>>, St(s, 150), <<>>)) @@
  ("mc" :> LMax(<<2>>, <<Rnd(s, 155, 1, 2)>>, Pd2(s, 156, 1))) @@
  ("aa" :> LAvg(<<3, 2>>, St(s, 160), Pd(s, 162, 1), Rnd(s, 168, 0, 1) = 0)) @@
  ("ab" :> LAvg(<<2, 2>>, St(s, 170), Pd(s, 172, 1), Rnd(s, 178, 0, 1) = 0)) @@
  ("ac" :> LAvg(<<3>>, <<Rnd(s, 180, 1, 2)>>, Pd2(s, 181, 2), Rnd(s, 185, 0, 1) = 0)) @@
  ("xa" :> LGMax) @@ ("va" :> LGAvg) @@
  ("fa" :> LFc("wf", "bf")) @@ ("fb" :> LFc("wf", "")) @@ ("ha" :> LMatMul("wm")) @@
  ("na" :> LBn("gm", "bt", "mn", "v", 1, 0, W.std, 0)) @@ ("nb" :> LBn("bt", "gm", "mn", "v", 1, 0, W.std, 0)) @@
  ("ia" :> LIdent) @@ ("ra" :> LReLU) @@ ("la" :> LLeaky(1, 2)) @@ ("lb" :> LLeaky(-3, 1)) @@
  ("pa" :> LPReLU("s")) @@ ("ta" :> LClip(-4, 5, "i")) @@ ("tb" :> LClip(0, 6, "i")) @@
  ("sa" :> LSigmoid) @@ ("ha2" :> LTanh) @@ ("oa" :> LSoftmax) @@
  ("ka" :> LLrn(1, 2, 3, 3)) @@ ("kb" :> LLrn(1, 1, 4, 5))
(* input classes: a, b rank 4; t, u rank 3; f rank 2; e, d lattice tensors *)
Ins(l) ==
  CASE l \in {"ca", "cb", "ma", "mb", "aa", "ab", "ka", "kb"} -> <<"a", "b", "a2">>
    [] l \in {"da", "db", "mc", "ac"} -> <<"t", "u">>
    [] l \in {"xa", "va", "na", "nb", "ia", "ra", "ta", "tb", "la", "lb"} -> <<"a", "b", "t", "a2", "u">>
    [] l \in {"fa", "fb", "ha"} -> <<"f", "f2">>
    [] l = "pa" -> <<"a", "a2">>
    [] l \in {"sa", "ha2", "oa"} -> <<"e", "d">>
InShape(W, i) == CASE i \in {"a", "a2"} -> W.a [] i = "b" -> W.b [] i = "t" -> W.t [] i = "u" -> W.u [] i \in {"f", "f2"} -> <<1, W.n>>
                   [] i = "e" -> <<1, W.n + 2>> [] i = "d" -> <<1, W.c, 2, 2>>
InGen(i, s) == IF i \in {"e", "d"} THEN Latt(s, -12, 12, 0) ELSE H(s, -9, 9)
(* the layers in place on their input *)
InPlace == <<"ra", "ta", "tb", "ia">>
Lattice == {"sa", "ha2", "oa"}

Names == <<"ca", "cb", "da", "db", "ma", "mb", "mc", "aa", "ab", "ac", "xa", "va", "fa", "fb", "ha", "na", "nb", "ia", "ra", "la", "lb", "pa", "ta", "tb", "sa", "ha2", "oa", "ka", "kb">>
(* a history uses some of the layers *)
Used(s) == LET p == {i \in 1..Len(Names) : Hash(i, s + 77) % 3 = 0} IN
           IF p = {} THEN <<"ca", "ma">> ELSE SetToSeq({Names[i] : i \in p})
ParamShapes(W) ==
  ("w4" :> <<W.co, W.c \div W.g, W.k, W.k>>) @@ ("b4" :> <<W.co>>) @@ ("w3" :> <<W.co, W.c \div W.g, W.k>>) @@ ("wf" :> <<W.m, W.n>>)
  @@ ("bf" :> <<W.m>>) @@ ("wm" :> <<W.n, W.m>>) @@ ("gm" :> <<W.c>>) @@ ("bt" :> <<W.c>>) @@ ("mn" :> <<W.c>>) @@ ("s" :> W.a)
Mutable == <<"w4", "b4", "w3", "wf", "bf", "wm", "gm", "bt", "mn", "s">>
(* output tensor of layer l for input i *)
OutName(l, i) == l \o "_" \o (IF i = "a2" THEN "a" ELSE IF i = "f2" THEN "f" ELSE i)
(* shapes only: a stand-in state where every parameter has its shape *)
ShapeSt(W) == LET P == ParamShapes(W) IN [x \in DOMAIN P |-> [sh |-> P[x], d |-> <<>>, x |-> 0]]
OutShape(W, L, i) == ResultShape(ShapeSt(W), L, [sh |-> InShape(W, i), d |-> <<>>, x |-> 0])

History(h) ==
  LET s == Seed * 10007 + h * 131
      W == World(s)
      LL == Layers(W, s)
      U == Used(s)
      P == ParamShapes(W)
      used == {U[i] : i \in 1..Len(U)}
      ins == SetToSeq(UNION {{Ins(l)[j] : j \in 1..Len(Ins(l))} : l \in used})
      outs == SetToSeq({<<OutName(l, i), OutShape(W, LL[l], i)>> : <<l, i>> \in UNION {{<<l2, Ins(l2)[j]>> : j \in 1..Len(Ins(l2))} : l2 \in used}})
      setup == FlattenSeq([i \in 1..Len(Mutable) |-> NewF(Mutable[i], P[Mutable[i]], H(s + i, -3, 3))])
               \o NewF("v", <<W.c>>, Sq([i \in 1..W.c |-> (W.std[i] * W.std[i]) - 1]))
               \o FlattenSeq([i \in 1..Len(ins) |-> NewF(ins[i], InShape(W, ins[i]), InGen(ins[i], s + 100 + i))])
               \o FlattenSeq([i \in 1..Len(outs) |-> NewF(outs[i][1], outs[i][2], H(s + 300 + i, -999, 999))])
               \o [i \in 1..Len(U) |-> MkA(U[i], LL[U[i]])]
      lay(t) == Choose(s + 501, t, U)
      inp(l, t) == Choose(s + 502, t, Ins(l))
      One_(t) ==
        LET r == Rnd(s + 500, t, 0, 99) l == lay(t) i == inp(l, t) z == s + 1000 + 17 * t o == OutName(l, i) IN
        CASE r < 50 -> <<RunA(l, i, o)>>
          [] r < 60 -> LET x == Choose(s + 503, t, ins) IN <<FillA(x, InGen(x, z))>>
          [] r < 68 -> <<FillA(Choose(s + 504, t, Mutable), H(z, -3, 3)), RunA(l, i, o)>>
          [] r < 74 -> <<FillA(o, H(z, -5000, 5000)), RunA(l, i, o)>>
          [] r < 78 -> <<FillA(i, InGen(i, z)), RunA(l, i, o)>>
          [] r < 82 -> LET q == Choose(s + 505, t, InPlace) x == Choose(s + 506, t, <<"a", "b", "t">>)
                       IN IF q \in used /\ (\E j \in 1..Len(ins) : ins[j] = x) THEN <<RunA(q, x, x)>> ELSE <<RunA(l, i, o), RunA(l, i, o)>>
          [] r < 87 -> <<DelA(l), MkA(l, LL[l])>>
          [] r < 91 -> <<Free(o), New(o, OutShape(W, LL[l], i)), RunA(l, i, o)>>
          [] r < 94 -> <<Free(i), New(i, InShape(W, i)), FillA(i, InGen(i, z)), RunA(l, i, o)>>
          [] r < 97 -> IF {"a", "a2"} \subseteq {ins[j] : j \in 1..Len(ins)} THEN <<CopyA("a", "a2")>> ELSE <<RunA(l, i, o)>>
          [] OTHER  -> LET l2 == lay(t + 400) i2 == inp(l2, t + 400) IN <<RunA(l, i, o), RunA(l2, i2, OutName(l2, i2)), RunA(l, i, o)>>
  IN setup \o FlattenSeq([t \in 1..NSteps |-> One_(t)])

GKeys == {<<h>> : h \in 1..NHist}
GCases(ky) == {History(ky[1])}
=============================================================================
