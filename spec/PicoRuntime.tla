----------------------------- MODULE PicoRuntime ----------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*   st : tensor id -> tensor        (the live tensors)                    *)
(*   ly : layer id  -> layer record  (kind and captured parameters; tensor *)
(*        parameters are references, i.e. ids)                             *)
(* Every public operation is one action.  Do(st, ly, a) is its effect:     *)
(*   [st, ly, out, wr]  new state, observable outcome, tensors written.    *)
(***************************************************************************)
EXTENDS PicoLayers

Ok == [k |-> "ok"]
Die == [k |-> "die"]
Eff(s, l, o, w) == [st |-> s, ly |-> l, out |-> o, wr |-> w]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Dead(s, l) == Eff(s, l, Die, {})

Meta(t) ==
  LET n == N4(t.sh) IN
  [k |-> "meta", rank |-> Rank(t), shape |-> t.sh, numel |-> Prod(t.sh), bytes |-> 4 * Prod(t.sh),
   batches |-> n[1], channels |-> n[2],
   height |-> IF Rank(t) = 1 THEN 0 ELSE n[3], width |-> IF Rank(t) = 1 THEN 0 ELSE n[4]]

Opt(s, id) == IF id = "" THEN <<>> ELSE s[id].d

(* What printing a tensor writes; "%" stands for the next element, printed like a number of its own *)
RECURSIVE Joined(_, _, _)
Joined(parts, sep, k) == IF k > Len(parts) THEN "" ELSE (IF k = 1 THEN "" ELSE sep) \o parts[k] \o Joined(parts, sep, k + 1)
Marks(n) == Joined([i \in 1..n |-> "%"], ", ", 1)
Brackets(n, indent, body) == Joined([i \in 1..n |-> (IF i = 1 THEN "[" ELSE indent \o "[") \o body \o "]"], "\n", 1)
Shown(sh) ==
  LET n == N4(sh) IN
  "shape: (" \o Joined([i \in 1..Len(sh) |-> ToString(sh[i])], ", ", 1) \o ")\ndata:\n"
  \o CASE Len(sh) = 1 -> Brackets(1, "", Marks(sh[1]))
       [] Len(sh) = 2 -> Brackets(1, "", Brackets(sh[1], " ", Marks(sh[2])))
       [] OTHER -> Brackets(n[1], "", Brackets(n[2], " ", Brackets(n[3], "  ", Marks(n[4]))))

(* Shape of a layer's result; <<>> when the library must refuse *)
LayerRefuses(s, L, in, out) ==
  CASE L.kind = "conv"  -> N4(in.sh)[1] # 1
    [] L.kind = "bn"    -> Rank(in) \notin {3, 4} \/ N4(in.sh)[1] # 1
    [] L.kind = "fc"    -> Rank(in) # 2 \/ Rank(out) # 2
    [] L.kind \in {"maxpool", "avgpool", "gmax", "gavg"} -> Rank(in) \notin {3, 4}
    [] L.kind = "lrn"   -> Rank(in) # 4
    [] L.kind = "prelu" -> Rank(s[L.slope]) # Rank(in)
    [] OTHER -> FALSE

LayerResult(s, L, in) ==
  CASE L.kind = "conv"    -> Conv(in, s[L.w], Opt(s, L.b), L.pads, L.strides, L.groups)
    [] L.kind = "maxpool" -> MaxPool(in, L.kernel, L.strides, L.pads)
    [] L.kind = "avgpool" -> AvgPool(in, L.kernel, L.strides, L.pads, L.incl)
    [] L.kind = "gmax"    -> GlobalMax(in)
    [] L.kind = "gavg"    -> GlobalAvg(in)
    [] L.kind = "fc"      -> Dense(in, s[L.w], Opt(s, L.b))
    [] L.kind = "matmul"  -> MatMul(in, s[L.w])
    [] L.kind = "bn"      -> BatchNorm(in, s[L.gamma].d, s[L.beta].d, s[L.mean].d, L.std, L.sx)
    [] L.kind = "ident"   -> in
    [] L.kind = "relu"    -> ReLU(in)
    [] L.kind = "leaky"   -> Leaky(in, L.ln, L.lx)
    [] L.kind = "prelu"   -> PReLU(in, s[L.slope])
    [] L.kind = "clip"    -> ClipT(in, L.lo, L.hi)
    [] L.kind = "sigmoid" -> Sigmoid(in)
    [] L.kind = "tanh"    -> Tanh(in)
    [] L.kind = "softmax" -> Softmax(in)
    [] L.kind = "lrn"     -> Lrn(in, L.an, L.ad, L.b4, L.n, L.win)

Do(s, l, a) ==
  CASE a.op = "new"   -> Eff(Put(s, a.id, Zeros(a.sh)), l, Ok, {a.id})
    [] a.op = "free"  -> Eff(Drop(s, a.id), l, Ok, {})
    [] a.op = "fill"  -> Eff([s EXCEPT ![a.id] = Fill(@, a.gen)], l, Ok, {a.id})
    [] a.op = "poke"  -> Eff([s EXCEPT ![a.id].d[Addr(N4(s[a.id].sh), a.at[1], a.at[2], a.at[3], a.at[4]) + 1] = a.v],
                             l, Ok, {a.id})
    [] a.op = "peek"  -> Eff(s, l, [k |-> "val", v |-> At(s[a.id], N4(s[a.id].sh), a.at[1], a.at[2], a.at[3], a.at[4]),
                                    flat |-> Addr(N4(s[a.id].sh), a.at[1], a.at[2], a.at[3], a.at[4])], {})
    [] a.op = "meta"  -> Eff(s, l, Meta(s[a.id]), {})
    [] a.op \in {"height", "width"} ->
          IF Rank(s[a.id]) = 1 THEN Dead(s, l)
          ELSE Eff(s, l, [k |-> "num", v |-> IF a.op = "height" THEN N4(s[a.id].sh)[3] ELSE N4(s[a.id].sh)[4]], {})
    [] a.op = "padnew"  -> Eff(Put(s, a.dst, Pad(s[a.src], a.pads, a.init)), l, Ok, {a.dst})
    [] a.op = "padinto" -> Eff(Put(s, a.dst, Pad(s[a.src], a.pads, a.init)), l, Ok, {a.dst})
    [] a.op = "copy"    -> IF Numel(s[a.src]) # Numel(s[a.dst]) THEN Dead(s, l)
                           ELSE Eff(Put(s, a.dst, Copy(s[a.src], s[a.dst])), l, Ok, {a.dst})
    [] a.op = "cat"     -> IF a.dim # 1 THEN Dead(s, l)
                           ELSE Eff(Put(s, a.dst, Concat([i \in 1..Len(a.srcs) |-> s[a.srcs[i]]])), l, Ok, {a.dst})
    [] a.op = "add"     -> Eff(Put(s, a.dst, AddT(s[a.dst], s[a.src])), l, [k |-> "bool", v |-> TRUE], {a.dst})
    [] a.op = "addch"   -> Eff(Put(s, a.dst, AddChannel(s[a.dst], s[a.src], a.b, a.c)), l, [k |-> "bool", v |-> TRUE], {a.dst})
    [] a.op = "mul"     -> Eff(Put(s, a.dst, MulT(s[a.src], s[a.dst], a.fn, a.fx)), l, Ok, {a.dst})
    [] a.op = "eq"      -> Eff(s, l, [k |-> "bool", v |-> EqT(s[a.l], s[a.r])], {})
    [] a.op = "show"    -> Eff(s, l, [k |-> "text", v |-> Shown(s[a.id].sh)], {})
    [] a.op = "who"     -> Eff(s, l, [k |-> "who", name |-> l[a.id].name, num |-> l[a.id].num, type |-> l[a.id].type], {})
    [] a.op = "mk"      -> Eff(s, Put(l, a.id, a.layer), Ok, {})
    [] a.op = "del"     -> Eff(s, Drop(l, a.id), Ok, {})
    [] a.op = "run"     -> IF LayerRefuses(s, l[a.id], s[a.in], s[a.out]) THEN Dead(s, l)
                           ELSE Eff(Put(s, a.out, [LayerResult(s, l[a.id], s[a.in]) EXCEPT !.sh = s[a.out].sh]), l, Ok, {a.out})

(* Which tensors an operation may change at all: the frame the library promises *)
MayWrite(a) == CASE a.op \in {"new", "fill", "poke"} -> {a.id}
                 [] a.op \in {"padnew", "padinto", "copy", "cat", "add", "addch", "mul"} -> {a.dst}
                 [] a.op = "run" -> {a.out}
                 [] a.op = "free" -> {a.id}
                 [] OTHER -> {}

(* The shape an output tensor must have for a run to be a well-formed request *)
ResultShape(s, L, in) ==
  CASE L.kind = "conv" -> ConvShape(in, s[L.w], L.pads, L.strides)
    [] L.kind \in {"maxpool", "avgpool"} -> PoolShape(in, L.kernel, L.strides, L.pads)
    [] L.kind \in {"gmax", "gavg"} -> GlobalShape(in)
    [] L.kind = "fc" -> <<1, s[L.w].sh[1]>>
    [] L.kind = "matmul" -> <<1, s[L.w].sh[2]>>
    [] OTHER -> in.sh
WellFormed(s, l, a) ==
  CASE a.op = "run" -> LayerRefuses(s, l[a.id], s[a.in], s[a.out])
                       \/ s[a.out].sh = ResultShape(s, l[a.id], s[a.in])
    [] a.op = "new" -> a.id \notin DOMAIN s
    [] a.op = "mk" -> a.id \notin DOMAIN l
    [] a.op = "padinto" -> s[a.dst].sh = PadShape(s[a.src].sh, a.pads)
    [] a.op = "cat" -> a.dim # 1 \/ (/\ s[a.dst].sh = ConcatShape([i \in 1..Len(a.srcs) |-> s[a.srcs[i]]])
                                  /\ \A i \in 1..Len(a.srcs) : s[a.srcs[i]].x = s[a.srcs[1]].x)   \* one exponent for all elements
    [] a.op \in {"add", "addch"} -> s[a.dst].sh = s[a.src].sh
    [] OTHER -> TRUE

(* Layer records *)
LConv(w, b, pads, strides, groups) == [kind |-> "conv", w |-> w, b |-> b, pads |-> pads, strides |-> strides, groups |-> groups]
LMax(k, s, p) == [kind |-> "maxpool", kernel |-> k, strides |-> s, pads |-> p]
LAvg(k, s, p, incl) == [kind |-> "avgpool", kernel |-> k, strides |-> s, pads |-> p, incl |-> incl]
LGMax == [kind |-> "gmax"]
LGAvg == [kind |-> "gavg"]
LFc(w, b) == [kind |-> "fc", w |-> w, b |-> b]
LMatMul(w) == [kind |-> "matmul", w |-> w]
(* epsilon = en / 2^ex *)
LBn(g, b, m, v, en, ex, std, sx) == [kind |-> "bn", gamma |-> g, beta |-> b, mean |-> m, var |-> v, en |-> en, ex |-> ex, std |-> std, sx |-> sx]
LIdent == [kind |-> "ident"]
LReLU == [kind |-> "relu"]
LLeaky(ln, lx) == [kind |-> "leaky", ln |-> ln, lx |-> lx]
LPReLU(s) == [kind |-> "prelu", slope |-> s]
LClip(lo, hi, m) == [kind |-> "clip", lo |-> lo, hi |-> hi, m |-> m]
LSigmoid == [kind |-> "sigmoid"]
LTanh == [kind |-> "tanh"]
LSoftmax == [kind |-> "softmax"]
LLrnW(an, ad, b4, n, w) == [kind |-> "lrn", an |-> an, ad |-> ad, b4 |-> b4, n |-> n, win |-> w]
LLrn(an, ad, b4, n) == LLrnW(an, ad, b4, n, "onnx")

(* Actions *)
New(id, sh)      == [op |-> "new", id |-> id, sh |-> sh]
FillA(id, gen)   == [op |-> "fill", id |-> id, gen |-> gen]
NewF(id, sh, gen) == <<New(id, sh), FillA(id, gen)>>
Free(id)         == [op |-> "free", id |-> id]
PadNew(src, dst, pads, init) == [op |-> "padnew", src |-> src, dst |-> dst, pads |-> pads, init |-> init]
PadInto(src, dst, pads, init) == [op |-> "padinto", src |-> src, dst |-> dst, pads |-> pads, init |-> init]
CopyA(src, dst)  == [op |-> "copy", src |-> src, dst |-> dst]
CatA(srcs, dst, dim) == [op |-> "cat", srcs |-> srcs, dst |-> dst, dim |-> dim]
AddA(dst, src)   == [op |-> "add", dst |-> dst, src |-> src]
AddChA(dst, src, b, c) == [op |-> "addch", dst |-> dst, src |-> src, b |-> b, c |-> c]
MulA(src, dst, fn, fx) == [op |-> "mul", src |-> src, dst |-> dst, fn |-> fn, fx |-> fx]
EqA(l, r)        == [op |-> "eq", l |-> l, r |-> r]
MkA(id, layer)   == [op |-> "mk", id |-> id, layer |-> layer]
ShowA(id, fmt)   == [op |-> "show", id |-> id, fmt |-> fmt]
WhoA(id)         == [op |-> "who", id |-> id]
Called(layer, name, num, type) == [f \in DOMAIN layer \cup {"name", "num", "type"} |-> CASE f = "name" -> name [] f = "num" -> num [] f = "type" -> type [] OTHER -> layer[f]]
DelA(id)         == [op |-> "del", id |-> id]
RunA(id, in, out) == [op |-> "run", id |-> id, in |-> in, out |-> out]
=============================================================================
