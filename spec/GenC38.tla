------------------------------- MODULE GenC38 -------------------------------
(* C38: networks for the example programs, data sets and pictures *)
EXTENDS PicoPrograms
S0(a, b) == (Seed * 7013) + (a * 131) + b
Q == Tier = 0
Run0 == [files |-> "ok", n |-> 0, nl |-> 0, z |-> <<0, 0, 0, 1>>, y |-> <<0, 0, 0, 0>>, fields |-> <<>>, means |-> <<>>, stem |-> "", tail |-> "", mode |-> ""]
Job0 == [prog |-> "", id |-> 0, m |-> <<>>, kind |-> "", place |-> <<>>, gain |-> <<>>, common |-> 0, perm |-> <<1, 2, 3>>, bias |-> <<>>, runs |-> <<>>]
OneHot(rows, cols, place, gain) == Mk(<<rows, cols>>, TLCEval([k \in 1..(rows * cols) |-> IF (k - 1) % cols = place[((k - 1) \div cols) + 1] THEN gain[((k - 1) \div cols) + 1] ELSE 0]))
W(id, t) == [id |-> id, k |-> "f", t |-> t]
Row(n, v) == Mk(<<n>>, TLCEval([k \in 1..n |-> v]))

(* ---- MNIST ---- *)
In28(prog) == IF prog = "lenet" THEN <<1, 1, 28, 28>> ELSE <<1, 784>>
Flat(prog, from, to) == IF prog = "lenet" THEN <<Nd("flat", "Flatten", <<from>>, <<to>>, <<A1("axis", 1)>>)>> ELSE <<>>
Fed(prog, from, to) == IF prog = "lenet" THEN to ELSE from
Named_(prog, M) == [M EXCEPT !.nm = prog]
MnistM(prog, kind, place, gain, common, s) ==
  LET b == W("b", Row(Digits, common)) IN
  Named_(prog,
  CASE kind = "sel" -> Mdl(In28(prog), <<W("w", OneHot(Digits, 784, place, gain)), b>>, Flat(prog, "x", "f") \o <<GemmN("g", Fed(prog, "x", "f"), "w", "b", "y")>>, "y", "accept")
    [] kind = "max" -> Mdl(In28(prog), <<W("w", OneHot(Digits, 196, place, gain)), b>>,
                           <<Nd("p", "MaxPool", <<"x">>, <<"q">>, <<AI("kernel_shape", <<2, 2>>), AI("strides", <<2, 2>>)>>)>> \o Flat(prog, "q", "f") \o <<GemmN("g", "f", "w", "b", "y")>>, "y", "accept")
    [] kind = "relu" ->      \* a hidden layer of sixteen, ten of which are used
         LET at(c) == (c * 3) % 16      \* the hidden element of class c in 1..10
             hid == Mk(<<16, 784>>, TLCEval([k \in 1..(16 * 784) |-> LET h == (k - 1) \div 784 p == (k - 1) % 784 IN
                      IF \E c \in 1..Digits : at(c) = h THEN (LET c == CHOOSE d \in 1..Digits : at(d) = h IN IF place[c] = p THEN gain[c] ELSE 0) ELSE Rnd(s, k, -3, 3)]))
         IN Mdl(In28(prog), <<W("v", hid), W("w", OneHot(Digits, 16, [c \in 1..Digits |-> at(c)], [c \in 1..Digits |-> 1])), b>>,
                Flat(prog, "x", "f") \o <<Nd("h", "Gemm", <<Fed(prog, "x", "f"), "v">>, <<"h">>, <<AF("alpha", 1, 0), AF("beta", 1, 0), A1("transB", 1)>>),
                                          Nd("re", "Relu", <<"h">>, <<"hr">>, <<>>), GemmN("g", "hr", "w", "b", "y")>>, "y", "accept"))
Gains(s) == LET k == s % 3 IN [c \in 1..Digits |-> IF k = 0 THEN 1 ELSE Choose(s, 300 + c, IF k = 1 THEN <<1, 2, 4>> ELSE <<1, 2, -1, 1>>)]
Places(kind, s) == [c \in 1..Digits |-> Rnd(s, 200 + c, 0, IF kind = "max" THEN 195 ELSE 783)]
Zs(s, j) == <<Rnd(s, 10 * j + 1, 1, 90), Rnd(s, 10 * j + 2, 1, 90), Rnd(s, 10 * j + 3, 0, 40), Choose(s, 10 * j + 4, <<2, 5, 100, 256, 251>>)>>
Ys(s, j) == <<Rnd(s, 10 * j + 5, 1, 9), Rnd(s, 10 * j + 6, 0, 9), Rnd(s, 10 * j + 7, 0, 9), Choose(s, 10 * j + 8, <<0, 2, 10, 997>>)>>
MRun(s, j, files, cnt, nl) == [Run0 EXCEPT !.files = files, !.n = cnt, !.nl = nl, !.z = Zs(s, j), !.y = Ys(s, j)]
MFails == <<"noargs", "onearg", "noweights", "cutweights", "noimages", "badimages", "nolabels", "badlabels">>
MJob(prog, kind, s, id) ==
  LET place == Places(kind, s) gain == Gains(s) common == Choose(s, 5, <<0, 3>>) IN
  [Job0 EXCEPT !.prog = prog, !.id = id, !.kind = kind, !.place = place, !.gain = gain, !.common = common, !.m = MnistM(prog, kind, place, gain, common, s),
   !.runs = <<MRun(s, 1, "ok", 1000, 1000), MRun(s, 2, "ok", 1003, 1003), MRun(s, 3, "ok", 1000 + Rnd(s, 6, 2, 60), 0), MRun(s, 4, "ok", Rnd(s, 7, 900, 999), 0), MRun(s, 5, "ok", 1, 0), MRun(s, 6, "longpaths", 1000, 1000),
              MRun(s, 7, "empty", 0, 0), MRun(s, 8, "fewlabels", 30, 29), MRun(s, 9, "morelabels", 30, 31)>> \o [f \in 1..Len(MFails) |-> MRun(s, 20 + f, MFails[f], 40, 40)]]
(* as many labels as images where nothing else is said; long paths are no reason to fail *)
Settle(jb) == [jb EXCEPT !.runs = [k \in 1..Len(@) |-> [@[k] EXCEPT !.nl = IF @ = 0 THEN jb.runs[k].n ELSE @]]]

(* ---- ImageNet ---- *)
PictureM(prog, kind, place, gain, bias, perm) ==
  LET fields(from) == <<Nd("p", "MaxPool", <<from>>, <<"q">>, <<AI("kernel_shape", <<56, 56>>), AI("strides", <<56, 56>>)>>), Nd("flat", "Flatten", <<"q">>, <<"f">>, <<A1("axis", 1)>>), GemmN("g", "f", "w", "b", "y")>>
      ws == <<W("w", OneHot(Classes, 48, place, gain)), W("b", Mk(<<Classes>>, bias))>>
      k3 == Mk(<<3, 3, 3, 3>>, TLCEval([k \in 1..81 |-> IF (k - 1) % 9 = 4 /\ (((k - 1) \div 9) % 3) + 1 = perm[((k - 1) \div 27) + 1] THEN 1 ELSE 0]))
  IN Named_(prog, IF kind = "pool" THEN Mdl(<<1, 3, 224, 224>>, ws, fields("x"), "y", "accept")
     ELSE Mdl(<<1, 3, 224, 224>>, <<W("k", k3)>> \o ws, <<Nd("c", "Conv", <<"x", "k">>, <<"a">>, <<AI("dilations", <<1, 1>>), A1("group", 1), AI("kernel_shape", <<3, 3>>), AI("pads", <<1, 1, 1, 1>>), AI("strides", <<1, 1>>)>>),
                                                          Nd("re", "Relu", <<"a">>, <<"ar">>, <<>>)>> \o fields("ar"), "y", "accept"))
IRun(s, j, files, nl) ==
  [Run0 EXCEPT !.files = files, !.nl = nl, !.mode = Choose(s, 40 + j, <<"rgb", "rgb", "grey">>), !.means = [c \in 1..3 |-> (U * Rnd(s, 50 + 3 * j + c, 0, 150)) + Rnd(s, 950 + 3 * j + c, 0, U - 1)],
               !.fields = LET f == TLCEval([k \in 1..48 |-> Rnd(s, 100 * j + k, 0, 255)]) IN IF Choose(s, 40 + j, <<"rgb", "rgb", "grey">>) = "grey" THEN [k \in 1..48 |-> f[((k - 1) % 16) + 1]] ELSE f,
               !.stem = Choose(s, 70 + j, <<"n0", "class ", "">>), !.tail = Choose(s, 80 + j, <<" tench, Tinca tinca", "", " (a b)", ";'x\\t">>)]
IFails == <<"args", "noweights", "cutweights", "nomeans", "badmeans", "nolabels", "fewlabels", "nojpeg", "small", "tall", "wide", "large">>
(* values that are named have to be told apart, whatever the rounding *)
Clear(jb, run) ==
  LET o == TLCEval([c \in 1..Classes |-> Output(jb, run, c)])
      lim == SetToSortSeq({o[c] : c \in 1..Classes}, LAMBDA a, b : a > b)
      ten == lim[MinOf(11, Len(lim))]
  IN /\ Cardinality({c \in 1..Classes : o[c] >= ten}) = 11
     /\ \A k \in 1..10 : lim[k] - lim[k + 1] >= U \div 4
IJob(prog, kind, s, id) ==
  LET place == TLCEval([c \in 1..Classes |-> Rnd(s, 1000 + c, 0, 47)]) gain == TLCEval([c \in 1..Classes |-> Choose(s, 3000 + c, <<1, 1, 2, -1>>)])
      bias == TLCEval([c \in 1..Classes |-> (Rnd(s, 5000 + c, 0, 30000) % 2001) - 1000]) perm == IF kind = "conv" THEN Choose(s, 5, << <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<2, 2, 3>> >>) ELSE <<1, 2, 3>>
      jb == [Job0 EXCEPT !.prog = prog, !.id = id, !.kind = kind, !.place = place, !.gain = gain, !.bias = bias, !.perm = perm, !.m = PictureM(prog, kind, place, gain, bias, perm)]
      good == SelectSeq([j \in 1..6 |-> IRun(s, j, IF j = 3 THEN "longpaths" ELSE "ok", IF j = 2 THEN 1003 ELSE 1000)] \o <<IRun(s, 7, "ok", 1000)>>, LAMBDA run : Clear(jb, run))
  IN [jb EXCEPT !.runs = SubSeq(good, 1, MinOf(4, Len(good))) \o [f \in 1..Len(IFails) |-> IRun(s, 20 + f, IFails[f], IF IFails[f] = "fewlabels" THEN 999 ELSE 1000)]]
MnistJobs == {<<"lenet", "sel">>, <<"lenet", "max">>, <<"lenet", "relu">>, <<"mnist_mlp", "sel">>, <<"mnist_mlp", "relu">>, <<"mnist_simple_perceptron", "sel">>}
PictureJobs == {<<"alexnet", "pool">>, <<"vgg16", "conv">>} \cup (IF Q THEN {} ELSE {<<"alexnet", "conv">>, <<"vgg16", "pool">>, <<"vgg19", "conv">>, <<"vgg19", "pool">>})
K == IF Q THEN 1 ELSE 4
AllJobs(z) == {Settle(MJob(t[1], t[2], S0(10 + d, Len(t[1]) + Len(t[2])), d)) : t \in MnistJobs, d \in 1..K}
              \cup {IJob(t[1], t[2], S0(50 + d, Len(t[1]) + Len(t[2])), d) : t \in PictureJobs, d \in 1..K}
GJobs == AllJobs(0)
=============================================================================
