------------------------------- MODULE GenC30 -------------------------------
(* C30: the tools that write reference data *)
EXTENDS PicoTools
CONSTANTS Seed, Tier
S0(a, b) == (Seed * 7151) + (a * 137) + b
Q == Tier = 0
(* signalling NaNs do not survive a conversion to double and back; the tools may make them quiet *)
Quiet(b) == Flat([i \in 1..(Len(b) \div 4) |-> LET f == Sub(b, 4 * (i - 1), 4) IN
              IF f[4] % 128 = 127 /\ f[3] >= 128 /\ f[3] < 192 /\ ~(f[1] = 0 /\ f[2] = 0 /\ f[3] = 128) THEN [f EXCEPT ![3] = @ + 64] ELSE f])
Vals(s, n) == Quiet(Floats(s, n))
Whole(s, n, lo, hi) == Flat([i \in 1..n |-> F32(Rnd(s, i, lo, hi))])
(* storage of the tensor file: the float forms hold any bits, the others whole numbers of their range *)
Stores == <<"raw", "float_data", "double", "int32", "uint8", "int64", "half", "int16">>
B(ty, s, n) == CASE ty \in {"raw", "float_data"} -> Vals(s, n) [] ty = "uint8" -> Whole(s, n, 0, 255) [] ty = "half" -> Whole(s, n, -2048, 2048)
                 [] ty = "int16" -> Whole(s, n, -32768, 32767) [] OTHER -> Whole(s, n, -16777215, 16777215)
P(file, ty, sh, s) == [op |-> "pb", file |-> file \o ".pb", ty |-> ty, sh |-> sh, b |-> B(ty, s, Prod(sh))]
Rm(f) == [op |-> "rm", file |-> f]
Go == [op |-> "parse"]
InSh(s) == <<1, Rnd(s, 1, 1, 4), Rnd(s, 2, 1, 5), Rnd(s, 3, 1, 6)>>
OutSh(s) == <<1, Rnd(s, 4, 1, 12)>>
St(s, i) == Choose(s, 100 + i, Stores)
Ins(n, s) == [i \in 1..n |-> P(InName(i - 1), St(s, i), InSh(s + 7 * i), s + i)]
Outs(n, s) == [i \in 1..n |-> P(OutName(i - 1), St(s + 1, i), OutSh(s + 11 * i), s + 50 + i)]
Many(n, m, s) == Ins(n, s) \o Outs(m, s) \o <<Go>>
EveryStore(ty, s) == <<P(InName(0), ty, InSh(s), s), P(OutName(0), ty, OutSh(s + 1), s + 1), Go>>
Shapes4(c, h, w, s) == <<P(InName(0), "raw", <<1, c, h, w>>, s), P(OutName(0), "raw", <<1, (c * h) + w>>, s + 1), Go>>
(* again with other tensors, more and fewer of them *)
Again(s) == Many(2, 2, s) \o Many(3, 1, s + 100) \o <<Rm("input_2.pb"), Rm("output_1.pb")>> \o Many(1, 2, s + 200)
BadIn == {<<2, 1, 2, 2>>, <<1, 4>>, <<1, 2, 3>>, <<4>>, <<1, 1, 2, 2, 2>>, <<3, 2, 1, 1>>}
BadOut == {<<2, 3>>, <<4>>, <<1, 2, 2>>, <<1, 3, 1, 1>>}
Unsupported(n, k, sh, s) == [Ins(n, s) EXCEPT ![k] = P(InName(k - 1), "raw", sh, s)] \o Outs(2, s) \o <<Go>>
UnsupportedOut(n, k, sh, s) == Ins(2, s) \o [Outs(n, s) EXCEPT ![k] = P(OutName(k - 1), "raw", sh, s)] \o <<Go>>

(* ---- generate_reference_data.py ---- *)
MDirs == <<"", "m/", "./", "data/models.d/">>
MStems == <<"net", "net.v2", "a_b", "random">>
FStems == <<"img", "yes.1", "x_input", "random">>
Mk_(kind, media, sh, lo, hi, seed, osh, s) ==
  [op |-> "gen", kind |-> kind, media |-> media, sh |-> sh, lo |-> lo, hi |-> hi, seed |-> seed, fdir |-> Choose(s, 1, <<"", "in/", "./in.d/">>), fstem |-> Choose(s, 2, FStems),
   fext |-> CASE kind = "wav" -> ".wav" [] kind = "jpeg" -> ".jpg" [] kind = "pgm" -> ".pgm" [] OTHER -> ".png",
   mdir |-> Choose(s, 3, MDirs), mstem |-> Choose(s, 4, MStems), mext |-> ".onnx", mw |-> 0, osh |-> osh, ob |-> Vals(s + 5, Prod(osh))]
O(s) == <<1, Rnd(s, 9, 1, 11)>>
Random(sh, lo, hi, s) == <<Mk_("random", <<>>, sh, lo, hi, s, O(s), s)>>
(* the same seed gives the same data *)
TwiceRandom(sh, lo, hi, s) == LET a == Mk_("random", <<>>, sh, lo, hi, s, O(s), s) IN <<a, [a EXCEPT !.mstem = "second", !.ob = Vals(s + 6, Prod(a.osh))]>>
(* with other data made in between *)
SeedRandom(sh, seed, s) == LET a == Mk_("random", <<>>, sh, -2, 3, seed, O(s), s) IN
  <<a, [a EXCEPT !.mstem = "between", !.seed = seed + 1 - (2 * (seed % 2))], [a EXCEPT !.mstem = "second", !.ob = Vals(s + 6, Prod(a.osh))]>>
Bytes_(s, n) == [i \in 1..n |-> Rnd(s, i, 0, 255)]
Pgm(h, w, s) == <<Mk_("pgm", Bytes_(s, h * w), <<1, 1, h, w>>, 0, 1, 0, O(s), s)>>
Jpeg(c, h, w, s) == <<Mk_("jpeg", Bytes_(s, c * h * w), <<1, c, h, w>>, 0, 1, 0, O(s), s)>>
(* pictures of other proportions than the model's input, as many pixels; dark pictures *)
Turned(kind, h, w, mw, s) == <<[Mk_(kind, Bytes_(s, h * w), <<1, 1, h, w>>, 0, 1, 0, O(s), s) EXCEPT !.mw = mw]>>
Dark(h, w, mx, s) == <<Mk_("pgm", [i \in 1..(h * w) |-> Rnd(s, i, 0, mx)], <<1, 1, h, w>>, 0, 1, 0, O(s), s)>>
(* the largest sample: a power of two, or anything *)
Samples(s, n, mx) == [i \in 1..n |-> IF i = 1 + (s % n) THEN mx ELSE Rnd(s, i, 0 - 32768, mx)]
Wav(sh, mx, s) == <<Mk_("wav", Samples(s, Prod(sh), mx), sh, 0, 1, 0, O(s), s)>>
Wrong(kind, sh, s) == LET a == Mk_(kind, IF kind = "random" THEN <<>> ELSE Bytes_(s, Prod(sh)), sh, 0, 1, 1, O(s), s) IN
  <<a>> \o Random(<<1, 3>>, 0, 1, s + 1) \o <<a>>
Sh4 == {<<1, c, h, w>> : c \in {1, 3}, h \in {1, 2, 4}, w \in {1, 3, 5}}
N == IF Q THEN 3 ELSE 20
GKeys == {"many", "stores", "shapes", "again", "badin", "badout", "none", "large", "random", "media", "turned", "wav", "wrong", "mixed"}
GCases(ky) ==
  CASE ky = "many" -> {Many(n, m, S0(n, m) + (17 * j)) : n \in {1, 2, 3, 11, 13}, m \in {1, 2, 12}, j \in 1..N}
    [] ky = "stores" -> {EveryStore(Stores[t], S0(20, t) + (13 * j)) : t \in 1..8, j \in 1..N}
    [] ky = "shapes" -> {Shapes4(c, h, w, S0(30 + c, (10 * h) + w)) : c \in 1..4, h \in 1..4, w \in 1..4}
    [] ky = "again" -> {Again(S0(40, j)) : j \in 1..(4 * N)}
    [] ky = "badin" -> {Unsupported(3, k, sh, S0(50, k)) : k \in 1..3, sh \in BadIn} \cup {Many(3, 3, S0(51, 1)) \o Unsupported(3, k, sh, S0(50, k)) : k \in 1..3, sh \in BadIn}
    [] ky = "badout" -> {UnsupportedOut(3, k, sh, S0(60, k)) : k \in 1..3, sh \in BadOut}
    [] ky = "none" -> {<<Go>>, Ins(2, 5) \o <<Go>>, Outs(2, 5) \o <<Go>>, Many(2, 2, 5) \o <<Rm("input_0.pb"), Rm("input_1.pb"), Go>>}
    [] ky = "large" -> {Shapes4(3, 32, 32, 1), Shapes4(1, 1, 1500, 2), Shapes4(300, 2, 2, 3), Shapes4(1, 300, 5, 4), Shapes4(1, 1100, 3, 5), Shapes4(1025, 1, 1, 6), Shapes4(2, 40, 130, 7)}
    [] ky = "random" -> {Random(sh, r[1], r[2], S0(70, Prod(sh) + r[2])) : sh \in Sh4 \cup {<<1, n>> : n \in {1, 7, 30}} \cup {<<1, c, w>> : c \in {1, 4}, w \in {1, 2, 9}}, r \in {<<0, 1>>, <<-3, 5>>, <<100, 101>>}}
                       \cup {TwiceRandom(sh, -1, 1, S0(71, j)) : sh \in {<<1, 2, 3, 4>>, <<1, 3, 5>>, <<1, 9>>}, j \in 1..N}
                       \cup {SeedRandom(sh, sd, S0(75, j)) : sh \in {<<1, 2, 2, 3>>, <<1, 6>>}, sd \in {0, 1, 2, 41, 65536, 2147483646, 2147483647}, j \in 1..N}
    [] ky = "media" -> {Pgm(h, w, S0(72, h) + j) : h \in {1, 2, 5}, w \in {1, 3, 8}, j \in 1..N} \cup {Jpeg(c, h, w, S0(73, h) + j) : c \in {1, 3}, h \in {1, 2, 5}, w \in {1, 3, 8}, j \in 1..N}
    [] ky = "turned" -> {Turned(kd, d[1], d[2], d[3], S0(76, (d[1] * 9) + d[3]) + j) : kd \in {"pgm", "jpeg"}, d \in {<<2, 6, 4>>, <<6, 2, 1>>, <<6, 2, 3>>, <<4, 4, 8>>, <<1, 12, 3>>, <<3, 4, 3>>, <<12, 1, 12>>, <<12, 1, 4>>}, j \in 1..N}
                       \cup {Dark(h, w, mx, S0(77, h + mx) + j) : h \in {1, 3}, w \in {1, 4}, mx \in {0, 1, 2, 30, 127, 128}, j \in 1..N}
    [] ky = "wav" -> {Wav(sh, mx, S0(74, mx) + j) : sh \in {<<1, 1, 1>>, <<1, 1, 6>>, <<1, 1, 40>>, <<1, 2, 5>>, <<1, 1, 1, 7>>, <<1, 1, 1, 16>>, <<1, 1, 3, 4>>, <<1, 2, 3, 2>>}, mx \in {1, 2, 128, 16384, 32767, 30001, 77}, j \in 1..N}
    [] ky = "wrong" -> {Wrong("png", <<1, 1, 2, 2>>, 1), Wrong("text", <<1, 4>>, 2)} \cup {Wrong("random", sh, 3) : sh \in {<<1>>, <<2, 3>>, <<1, 1, 1, 2, 2>>, <<4, 1, 2, 2>>, <<0, 3>>}}
                       \cup {Wrong(kd, <<2, 1, 2, 2>>, 4) : kd \in {"pgm", "jpeg", "wav"}}
    [] ky = "mixed" -> {Many(2, 2, S0(80, j)) \o Random(<<1, 2, 3>>, 0, 1, S0(81, j)) \o Pgm(2, 3, S0(82, j)) \o Wav(<<1, 1, 5>>, 100, S0(83, j)) \o Many(3, 3, S0(84, j)) : j \in 1..(2 * N)}
=============================================================================
