------------------------------- MODULE GenC26 -------------------------------
(* C26: the import preserves the data flow of the graph *)
EXTENDS PicoModels
S0(a, b) == (Seed * 6007) + (a * 131) + b

(* ---- all graphs of three nodes over Relu, Mul, Add, Concat; every output ---- *)
V(i) == IF i = 0 THEN "x" ELSE "v" \o ToString(i)
(* a choice is <<op, operand, operand>>; operands are value numbers *)
Ops(n) == ({"Relu", "Mul"} \X (0..n) \X {0}) \cup ({"Add", "Concat"} \X (0..n) \X (0..n))
W(w, c) == IF c[1] = "Concat" THEN w[c[2] + 1] + w[c[3] + 1] ELSE w[c[2] + 1]
Fits(w, c) == c[1] = "Add" => w[c[2] + 1] = w[c[3] + 1]
NodeOf(k, c) == CASE c[1] = "Relu" -> Nd("r" \o ToString(k), "Relu", <<V(c[2])>>, <<V(k)>>, <<>>)
                  [] c[1] = "Mul" -> Nd("m" \o ToString(k), "Mul", <<V(c[2]), "f" \o ToString(k)>>, <<V(k)>>, <<>>)
                  [] c[1] = "Add" -> Nd("a" \o ToString(k), "Add", <<V(c[2]), V(c[3])>>, <<V(k)>>, <<>>)
                  [] OTHER -> Nd("c" \o ToString(k), "Concat", <<V(c[2]), V(c[3])>>, <<V(k)>>, <<A1("axis", 1)>>)
Factors(cs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, [k \in 1..Len(cs) |-> IF cs[k][1] = "Mul" THEN <<InitS("f" \o ToString(k), <<-2, 3, -1, 5>>[k], 0)>> ELSE <<>>])
InSh(r) == <<(<<1, 3>>), (<<1, 2, 2>>), (<<1, 2, 1, 2>>)>>[r]
DagM(sh, cs, o) == Mdl(sh, Factors(cs), [k \in 1..Len(cs) |-> NodeOf(k, cs[k])], V(o), "accept")
WAll(w, cs) == FoldLeft(LAMBDA ws, c : Append(ws, W(ws, c)), w, cs)
(* plain inputs: distinct values of both signs *)
Usual2(s) == Usual(Rev(3 + (s % 2)), H(s, -9, 9))
Dag(cs, o, s) == Sc(Plain(DagM(InSh(1 + (s % 3)), cs, o), s), Usual2(s))
Key2 == {<<"dag", c1, c2>> : c1 \in Ops(0), c2 \in {c \in Ops(1) : TRUE}}
FitKey(k) == Fits(<<3>>, k[2]) /\ Fits(WAll(<<3>>, <<k[2]>>), k[3])
Num(c) == (CASE c[1] = "Relu" -> 0 [] c[1] = "Mul" -> 7 [] c[1] = "Add" -> 13 [] OTHER -> 23) + (5 * c[2]) + (11 * c[3])
Dags(c1, c2) ==
  {Dag(<<c1, c2, c3>>, 3, S0(1, Num(c1) + 3 * Num(c2) + 7 * Num(c3))) : c3 \in {c \in Ops(2) : Fits(WAll(<<3>>, <<c1, c2>>), c)}}
  \cup {Dag(<<c1, c2>>, o, S0(2, Num(c1) + 3 * Num(c2))) : o \in {1, 2}}
(* four nodes: a sample, all of them in thorough runs *)
Dags4(c1, c2) ==
  {Dag(<<c1, c2, c[1], c[2]>>, 4, S0(3, Num(c[1]) + 7 * Num(c[2])))
     : c \in {c \in Ops(2) \X Ops(3) : /\ Fits(WAll(<<3>>, <<c1, c2>>), c[1]) /\ Fits(WAll(<<3>>, <<c1, c2, c[1]>>), c[2])
                                                /\ Rnd(S0(4, Num(c1) + 3 * Num(c2)), Num(c[1]) + 31 * Num(c[2]), 0, IF Tier = 0 THEN 79 ELSE 9) = 0}}

(* ---- nodes that do nothing: reshapes to the same shape, in every position and number ---- *)
Nop(n, i, o, sh, how) ==
  LET tgt == CASE how = "same" -> sh [] how = "zero" -> [k \in 1..Len(sh) |-> 0] [] how = "minus" -> [sh EXCEPT ![Len(sh)] = -1]
  IN [nd |-> Nd(n, "Reshape", <<i, "t_" \o n>>, <<o>>, <<>>), it |-> InitN("t_" \o n, tgt)]
Hows == {"same", "zero", "minus"}
NopM(sh, w, how) ==
  LET N(n, i, o) == Nop(n, i, o, sh, how) R(n, i, o) == Nd(n, "Relu", <<i>>, <<o>>, <<>>)
      D(n, i, j, o) == Nd(n, "Add", <<i, j>>, <<o>>, <<>>)
      F == Nd("m", "Mul", <<"x", "f">>, <<"h">>, <<>>) f == InitS("f", -1, 0)
      n1 == N("n1", "x", "p") n2 == N("n2", "h", "p") n3 == N("n3", "h", "y") n4 == N("n4", "p", "q") n5 == N("n5", "x", "y")
      n6 == N("n6", "p", "y")
  IN CASE w = 1 -> Mdl(sh, <<n1.it>>, <<n1.nd, R("r", "p", "y")>>, "y", "accept")                       \* at the start
       [] w = 2 -> Mdl(sh, <<f, n3.it>>, <<F, n3.nd>>, "y", "accept")                                    \* at the end
       [] w = 3 -> Mdl(sh, <<f, n2.it>>, <<F, n2.nd, R("r", "p", "y")>>, "y", "accept")                  \* in the middle
       [] w = 4 -> Mdl(sh, <<f, n2.it>>, <<F, n2.nd, R("r", "p", "s"), D("a", "s", "h", "y")>>, "y", "accept")   \* original and copy both read
       [] w = 5 -> Mdl(sh, <<f, n2.it>>, <<F, n2.nd, R("r", "h", "s"), D("a", "s", "p", "y")>>, "y", "accept")
       [] w = 6 -> Mdl(sh, <<f, n2.it, n4.it>>, <<F, n2.nd, n4.nd, R("r", "q", "y")>>, "y", "accept")     \* two in a row
       [] w = 7 -> Mdl(sh, <<f, n2.it, n6.it>>, <<F, n2.nd, n6.nd>>, "y", "accept")                       \* two in a row at the end
       [] w = 8 -> Mdl(sh, <<f, n2.it>>, <<F, n2.nd, D("a", "p", "p", "y")>>, "y", "accept")              \* read twice by one node
       [] w = 9 -> Mdl(sh, <<n5.it>>, <<n5.nd>>, "y", "accept")                                           \* nothing else
       [] w = 10 -> Mdl(sh, <<f, n2.it>>, <<F, n2.nd, R("r", "p", "s"), Nd("m2", "Mul", <<"p", "f">>, <<"z">>, <<>>), D("a", "z", "s", "y")>>, "y", "accept")
       [] w = 11 -> Mdl(sh, <<f, n3.it>>, <<F, n3.nd, R("r", "h", "dead")>>, "y", "accept")               \* output by a no-op, source read again
       [] w = 12 -> Mdl(sh, <<f, n3.it>>, <<F, n3.nd, R("r", "y", "dead")>>, "y", "accept")               \* output read again
       [] w = 13 -> Mdl(sh, <<n1.it>>, <<n1.nd, R("r", "x", "s"), D("a", "s", "p", "y")>>, "y", "accept")
Nops(sh, how) == {Sc(Plain(NopM(sh, w, how), S0(5, w)), Usual2(w)) : w \in 1..13}

R_0(n, i, o) == Nd(n, "Relu", <<i>>, <<o>>, <<>>)
(* ---- changes of rank ---- *)
Rs(n, i, o, tgt) == [nd |-> Nd(n, "Reshape", <<i, "t_" \o n>>, <<o>>, <<>>), it |-> InitN("t_" \o n, tgt)]
Uns(n, i, o, ax) == Nd(n, "Unsqueeze", <<i>>, <<o>>, <<AI("axes", ax)>>)
Sqz(n, i, o, ax) == Nd(n, "Squeeze", <<i>>, <<o>>, <<AI("axes", ax)>>)
Flt(n, i, o) == Nd(n, "Flatten", <<i>>, <<o>>, <<A1("axis", 1)>>)
GMx(n, i, o) == Nd(n, "GlobalMaxPool", <<i>>, <<o>>, <<>>)
C1(n, i, w, o) == Nd(n, "Conv", <<i, w>>, <<o>>, <<A1("group", 1), AI("kernel_shape", <<1, 1>>), AI("strides", <<1, 1>>)>>)
Ranks ==
  LET r1 == Rs("a", "x", "p", <<1, 2, 2, 3>>) r2 == Rs("b", "p", "q", <<1, 12>>) r3 == Rs("b", "p", "q", <<1, 4, 3>>)
      r4 == Rs("b", "p", "q", <<1, 2, 2, 3, 1>>) w == InitF("w", <<2, 2, 1, 1>>, H(Seed, -3, 3)) w1 == InitF("w", <<3, 1, 1, 1>>, H(Seed, -3, 3))
      r(t) == Rs("a", "x", "p", t)
  IN {Mdl(<<1, 12>>, <<r1.it, w>>, <<r1.nd, C1("c", "p", "w", "q"), GMx("g", "q", "g"), Flt("f", "g", "y")>>, "y", "accept"),
      Mdl(<<1, 12>>, <<r1.it, r2.it>>, <<r1.nd, Nd("t", "Transpose", <<"p">>, <<"q0">>, <<AI("perm", <<0, 2, 3, 1>>)>>), Nd("b", "Reshape", <<"q0", "t_b">>, <<"q">>, <<>>), Nd("r", "Relu", <<"q">>, <<"y">>, <<>>)>>, "y", "accept"),
      Mdl(<<1, 12>>, <<r1.it, r2.it>>, <<r1.nd, r2.nd, Nd("a2", "Add", <<"q", "x">>, <<"y">>, <<>>)>>, "y", "accept"),
      Mdl(<<1, 12>>, <<r1.it, r3.it>>, <<r1.nd, r3.nd, Nd("c2", "Concat", <<"q", "q">>, <<"z">>, <<A1("axis", 1)>>), Flt("f", "z", "y")>>, "y", "accept"),
      (* a reshape whose target only starts like the input's shape *)
      Mdl(<<1, 4, 1, 1>>, <<Rs("a", "x", "p", <<1, 4>>).it>>, <<Rs("a", "x", "p", <<1, 4>>).nd, Nd("r", "Relu", <<"p">>, <<"y">>, <<>>)>>, "y", "accept"),
      Mdl(<<1, 4, 1, 1>>, <<Rs("a", "x", "p", <<1, 4>>).it, InitF("k", <<3, 4>>, H(Seed, -3, 3))>>, <<Rs("a", "x", "p", <<1, 4>>).nd, GemmN("g", "p", "k", "", "y")>>, "y", "accept"),
      Mdl(<<1, 4, 1, 1>>, <<Rs("a", "x", "p", <<1, 4>>).it>>, <<Rs("a", "x", "p", <<1, 4>>).nd, Nd("c", "Concat", <<"p", "p">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"),
      Mdl(<<1, 3, 1>>, <<Rs("a", "x", "p", <<1, 3>>).it>>, <<Rs("a", "x", "p", <<1, 3>>).nd, Nd("c", "Concat", <<"p", "p">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"),
      (* unsqueeze changes what the next node sees *)
      Mdl(<<1, 4>>, <<InitF("w", <<3, 4, 1, 1>>, H(Seed, -3, 3))>>, <<Uns("u", "x", "p", <<2, 3>>), C1("c", "p", "w", "q"), Flt("f", "q", "y")>>, "y", "accept"),
      Mdl(<<1, 4>>, <<>>, <<Uns("u", "x", "p", <<2, 3>>), GMx("g", "p", "q"), Flt("f", "q", "y")>>, "y", "accept"),
      Mdl(<<1, 4>>, <<>>, <<Uns("u", "x", "p", <<0, 1>>), GMx("g", "p", "q"), Flt("f", "q", "y")>>, "y", "may"),
      Mdl(<<1, 2, 6>>, <<InitF("w", <<3, 2, 1, 3>>, H(Seed, -3, 3))>>, <<Uns("u", "x", "p", <<2>>), Nd("c", "Conv", <<"p", "w">>, <<"q">>, <<A1("group", 1), AI("kernel_shape", <<1, 3>>), AI("strides", <<1, 1>>)>>), Flt("f", "q", "y")>>, "y", "accept"),
      Mdl(<<1, 2, 6>>, <<>>, <<Uns("u", "x", "p", <<3>>), Nd("c", "MaxPool", <<"p">>, <<"q">>, <<AI("kernel_shape", <<2, 1>>), AI("strides", <<2, 1>>)>>), Flt("f", "q", "y")>>, "y", "accept"),
      Mdl(<<1, 4>>, <<>>, <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Uns("u", "h", "p", <<2, 3>>), Sqz("s", "p", "q", <<2, 3>>), Nd("a", "Add", <<"q", "h">>, <<"y">>, <<>>)>>, "y", "accept"),
      Mdl(<<1, 4, 1, 1>>, <<>>, <<Sqz("s", "x", "p", <<2, 3>>), Uns("u", "p", "q", <<2, 3>>), Nd("a", "Add", <<"q", "x">>, <<"z">>, <<>>), Flt("f", "z", "y")>>, "y", "accept"),
      Mdl(<<1, 4, 1, 1>>, <<>>, <<Sqz("s", "x", "p", <<2, 3>>), Nd("c", "Concat", <<"p", "p", "p">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"),
      Mdl(<<1, 4>>, <<>>, <<Uns("u", "x", "p", <<2>>), Nd("r1", "Relu", <<"p">>, <<"q">>, <<>>), Nd("c", "Concat", <<"p", "q">>, <<"z">>, <<A1("axis", 1)>>), Flt("f", "z", "y")>>, "y", "accept"),
      (* the output itself is made by an unsqueeze *)
      Mdl(<<1, 1, 4>>, <<>>, <<Sqz("s", "x", "p", <<1>>), Nd("r", "Relu", <<"p">>, <<"q">>, <<>>), Sqz("s2", "u1", "y", <<2>>)>>, "y", "skip")}
RankCases == {Sc(Plain(M, S0(6, k)), Usual2(k)) : M \in {M \in Ranks : M.cls # "skip"}, k \in 1..2}
  \cup {Sc(Plain(Mdl(<<1, 4, 3>>, <<>>, <<GMx("g", "x", "p"), Sqz("s", "p", "q", <<2>>), Uns("u", "q", "r", <<2>>), Sqz("s2", "r", "y", <<2>>)>>, "y", "may"), S0(6, 9)), Usual2(9))}

(* ---- targets with zeros and a minus one in every place, read by an operator which sees the difference ---- *)
ZeroT(sh, tgt, s) ==
  LET out == ReshapeTo(sh, tgt) fin == IF Len(out) = 2 THEN Nd("r2", "Relu", <<"q">>, <<"y">>, <<>>) ELSE Flt("f", "t", "y")
      mid == IF Len(out) = 4 THEN <<Nd("tr", "Transpose", <<"q">>, <<"t">>, <<AI("perm", <<0, 2, 3, 1>>)>>)>>
             ELSE IF Len(out) = 3 THEN <<Nd("cc", "Concat", <<"q", "q">>, <<"t">>, <<A1("axis", 1)>>)>> ELSE <<>>
  IN Mdl(sh, <<InitN("tgt", tgt)>>, <<Nd("r1", "Relu", <<"x">>, <<"h">>, <<>>), Nd("rs", "Reshape", <<"h", "tgt">>, <<"q">>, <<>>)>> \o mid \o <<fin>>, "y", "accept")
(* every way to write a target shape of r entries *)
Targets(sh, r) ==
  LET n == Prod(sh) El(i) == {-1} \cup (IF i <= Len(sh) THEN {0} ELSE {}) \cup {d \in 1..n : n % d = 0 /\ (i = 1 => d = 1)}
      T == IF r = 2 THEN {<<a, b>> : a \in El(1), b \in El(2)} ELSE IF r = 3 THEN {<<a, b, c>> : a \in El(1), b \in El(2), c \in El(3)}
           ELSE {<<a, b, c, d>> : a \in El(1), b \in El(2), c \in El(3), d \in El(4)}
      z(t, i) == IF t[i] = 0 THEN sh[i] ELSE t[i]
      known(t) == Prod([i \in 1..r |-> IF t[i] = -1 THEN 1 ELSE z(t, i)])
      minus(t) == Cardinality({i \in 1..r : t[i] = -1})
  IN {t \in T : minus(t) <= 1 /\ (IF minus(t) = 1 THEN n % known(t) = 0 ELSE known(t) = n) /\ ReshapeTo(sh, t)[1] = 1 /\ (\E i \in 1..r : t[i] \in {0, -1})}
ZeroCases(sh, r) == {Sc(Plain(ZeroT(sh, t, 1), Sum(t)), Usual2(Sum(t) + 8)) : t \in {t \in Targets(sh, r) : r = 4 /\ Tier = 0 => (\E i \in 2..4 : t[i] = 0)}}

(* ---- reshape targets computed from shapes: the pattern exported for x.view(x.size(0), -1) ---- *)
CTgt(w, src) ==     \* nodes computing "tgt" and their constants
  LET Sh == Nd("sh", "Shape", <<src>>, <<"s">>, <<>>)
      KC(n, o, v) == Nd(n, "Constant", <<>>, <<o>>, <<AT("value", <<>>, v)>>)
      K1(n, o, v) == Nd(n, "Constant", <<>>, <<o>>, <<AT("value", <<1>>, v)>>)
      Ga(i, o, k) == Nd("ga" \o o, "Gather", <<i, k>>, <<o>>, <<A1("axis", 0)>>)
      Un(i, o) == Nd("un" \o o, "Unsqueeze", <<i>>, <<o>>, <<AI("axes", <<0>>)>>)
      Cc(ins) == Nd("cc", "Concat", ins, <<"tgt">>, <<A1("axis", 0)>>)
  IN CASE w = 1 -> [nd |-> <<Sh, KC("k0", "zero", <<0>>), Ga("s", "g", "zero"), KC("k1", "minus", <<-1>>), Un("g", "u0"), Un("minus", "u1"), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
       [] w = 2 -> [nd |-> <<Sh, K1("k0", "zero", <<0>>), Ga("s", "u0", "zero"), K1("k1", "u1", <<-1>>), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
       [] w = 3 -> [nd |-> <<Sh, Ga("s", "u0", "zero"), Cc(<<"u0", "u1">>)>>, it |-> <<InitN("zero", <<0>>), InitN("u1", <<-1>>)>>]
       [] w = 4 -> [nd |-> <<K1("k0", "u0", <<1>>), K1("k1", "u1", <<-1>>), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
       [] w = 5 -> [nd |-> <<Sh, Ga("s", "g", "zero"), Un("g", "u0"), K1("k1", "u1", <<-1>>), Cc(<<"u0", "u1">>)>>, it |-> <<InitN0("zero", 0)>>]
       [] w = 6 -> [nd |-> <<Sh, Nd("ca", "Cast", <<"s">>, <<"s1">>, <<A1("to", 7)>>), K1("k0", "zero", <<0>>), Ga("s1", "u0", "zero"), K1("k1", "u1", <<-1>>), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
       [] w = 8 -> [nd |-> <<Sh, K1("k0", "zero", <<0>>), Ga("s", "u0", "zero"), K1("k1", "m0", <<-1>>), Nd("ca", "Cast", <<"m0">>, <<"u1">>, <<A1("to", 7)>>), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
       [] w = 9 -> [nd |-> <<Sh, K1("k0", "zero", <<0>>), Ga("s", "u0", "zero"), Nd("k1", "Constant", <<>>, <<"m0">>, <<AT("value", <<1, 1>>, <<-1>>)>>), Nd("sq", "Squeeze", <<"m0">>, <<"u1">>, <<AI("axes", <<1>>)>>), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
       [] w = 10 -> [nd |-> <<Nd("ca", "Cast", <<"m0">>, <<"tgt">>, <<A1("to", 7)>>)>>, it |-> <<InitN("m0", <<1, -1>>)>>]
       [] w = 7 -> [nd |-> <<K1("k0", "zero", <<0>>), Sh, K1("k1", "u1", <<-1>>), Ga("s", "u0", "zero"), Cc(<<"u0", "u1">>)>>, it |-> <<>>]
ConstM(w, body) ==
  LET h == IF body = "pool" THEN "hp" ELSE IF body = "input" THEN "x" ELSE "h"
      c == CTgt(w, IF body = "cross" THEN "x" ELSE h)
      pre == CASE body = "input" -> <<>>
               [] body = "relu" -> <<Nd("r0", "Relu", <<"x">>, <<"h">>, <<>>)>>
               [] body = "cross" -> <<Nd("r0", "Relu", <<"x">>, <<"h">>, <<>>)>>
               [] body = "conv" -> <<C1("c0", "x", "w", "h")>>
               [] body = "pool" -> <<C1("c0", "x", "w", "h"), GMx("g0", "h", "hp")>>
               [] body = "mp" -> <<Nd("p0", "MaxPool", <<"x">>, <<"h">>, <<AI("kernel_shape", <<2, 2>>), AI("strides", <<2, 2>>)>>)>>
      cols == CASE body = "input" -> 12 [] body = "relu" -> 12 [] body = "cross" -> 12 [] body = "conv" -> 18 [] body = "pool" -> 3 [] body = "mp" -> 2
  IN Mdl(<<1, 2, 2, 3>>, c.it \o <<InitF("w", <<3, 2, 1, 1>>, H(Seed, -3, 3)), InitF("k", <<4, cols>>, H(Seed + 1, -3, 3))>>,
         pre \o c.nd \o <<Nd("rs", "Reshape", <<h, "tgt">>, <<"q">>, <<>>), GemmN("ge", "q", "k", "", "y")>>, "y", "accept")
Consts == {Sc(Plain(ConstM(w, b), S0(7, w)), Usual2(w)) : w \in 1..10, b \in {"input", "relu", "conv", "pool", "cross", "mp"}}
  (* a value that is the output, and otherwise only read for its shape *)
  \cup {Sc(Plain(Mdl(<<1, 4>>, <<InitF("w", <<3, 4>>, H(Seed, -5, 5))>>, nd, "y", "accept"), S0(11, Len(nd))), Usual2(Len(nd))) : nd \in {
        <<GemmN("g", "x", "w", "", "y"), Nd("sh", "Shape", <<"y">>, <<"s">>, <<>>)>>,
        <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("sh", "Shape", <<"h">>, <<"s">>, <<>>), GemmN("g", "h", "w", "", "y")>>,
        <<Nd("r", "Relu", <<"x">>, <<"h">>, <<>>), Nd("sh", "Shape", <<"h">>, <<"s">>, <<>>), GemmN("g", "x", "w", "", "y")>>,
        <<GemmN("g", "x", "w", "", "y"), Nd("r", "Relu", <<"y">>, <<"z">>, <<>>), Nd("sh", "Shape", <<"z">>, <<"s">>, <<>>)>>}}
  (* one target shared by two reshapes; the shape read by two gathers *)
  \cup {Sc(Plain(LET c == CTgt(w, "x") IN Mdl(<<1, 2, 2, 3>>, c.it,
              c.nd \o <<Nd("r0", "Relu", <<"x">>, <<"h">>, <<>>), Nd("rs", "Reshape", <<"h", "tgt">>, <<"q">>, <<>>), Nd("rs2", "Reshape", <<"x", "tgt">>, <<"q2">>, <<>>), Nd("c", "Concat", <<"q", "q2">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"), S0(8, w)), Usual2(w)) : w \in 1..10}
  (* the same target initializer used by two nodes *)
  \cup {Sc(Plain(Mdl(<<1, 2, 2, 3>>, <<InitN("tgt", <<1, -1>>)>>,
              <<Nd("r0", "Relu", <<"x">>, <<"h">>, <<>>), Nd("rs", "Reshape", <<"h", "tgt">>, <<"q">>, <<>>), Nd("rs2", "Reshape", <<"x", "tgt">>, <<"q2">>, <<>>), Nd("c", "Concat", <<"q", "q2">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept"), S0(9, k)), Usual2(k)) : k \in 1..2}
  (* constant nodes in places where the importer may not expect them: refused or right *)
  \cup {Sc(Plain(M, S0(10, k)), Usual2(k)) : k \in 1..2, M \in {
       Mdl(<<1, 4>>, <<>>, <<Nd("k", "Constant", <<>>, <<"c">>, <<ATF("value", <<4>>, <<3, -4, 5, 7>>)>>), Nd("a", "Add", <<"x", "c">>, <<"y">>, <<>>)>>, "y", "may"),
       Mdl(<<1, 4>>, <<>>, <<Nd("k", "Constant", <<>>, <<"c">>, <<ATF("value", <<>>, <<3>>)>>), Nd("a", "Mul", <<"x", "c">>, <<"y">>, <<>>)>>, "y", "may"),
       Mdl(<<1, 2>>, <<>>, <<Nd("k", "Constant", <<>>, <<"c">>, <<ATF("value", <<3, 2>>, <<3, -4, 5, 7, 1, -2>>)>>), GemmN("g", "x", "c", "", "y")>>, "y", "may"),
       Mdl(<<1, 2, 2, 3>>, <<>>, <<Nd("k", "Constant", <<>>, <<"w">>, <<ATF("value", <<1, 2, 1, 1>>, <<3, -4>>)>>), C1("c", "x", "w", "q"), Flt("f", "q", "y")>>, "y", "may"),
       Mdl(<<1, 2>>, <<>>, <<Nd("k", "Constant", <<>>, <<"c">>, <<ATF("value", <<1, 2>>, <<3, -4>>)>>), Nd("g", "Concat", <<"x", "c">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "may"),
       Mdl(<<1, 2>>, <<InitF("c", <<1, 2>>, H(Seed, -5, 5))>>, <<Nd("g", "Concat", <<"x", "c">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "may"),
       Mdl(<<1, 2>>, <<InitF("c", <<1, 2>>, H(Seed, -5, 5))>>, <<Nd("r", "Relu", <<"c">>, <<"h">>, <<>>), Nd("g", "Add", <<"x", "h">>, <<"y">>, <<>>)>>, "y", "may"),
       Mdl(<<1, 2>>, <<InitF("c", <<2, 1>>, H(Seed, -5, 5))>>, <<Nd("r", "Transpose", <<"c">>, <<"h">>, <<AI("perm", <<1, 0>>)>>), Nd("g", "Add", <<"x", "h">>, <<"y">>, <<>>)>>, "y", "may"),
       Mdl(<<1, 2>>, <<InitF("c", <<1, 2>>, H(Seed, -5, 5)), InitN("t", <<2, 1>>)>>, <<Nd("r", "Reshape", <<"c", "t">>, <<"h">>, <<>>), Nd("g", "MatMul", <<"x", "h">>, <<"y">>, <<>>)>>, "y", "may"),
       Mdl(<<1, 2>>, <<InitF("c", <<2>>, H(Seed, -5, 5))>>, <<Nd("u", "Unsqueeze", <<"c">>, <<"h">>, <<AI("axes", <<0>>)>>), Nd("g", "Add", <<"x", "h">>, <<"y">>, <<>>)>>, "y", "may"),
       (* weights that are computed *)
       Mdl(<<1, 4>>, <<InitN("t", <<4, 1>>)>>, <<Nd("r", "Reshape", <<"x", "t">>, <<"w">>, <<>>), Nd("g", "MatMul", <<"x", "w">>, <<"y">>, <<>>)>>, "y", "may"),
       Mdl(<<1, 4>>, <<InitF("a", <<4, 2>>, H(Seed, -5, 5)), InitF("b", <<4, 2>>, H(Seed + 1, -5, 5))>>, <<Nd("ad", "Add", <<"a", "b">>, <<"w">>, <<>>), Nd("g", "MatMul", <<"x", "w">>, <<"y">>, <<>>)>>, "y", "may")}}

(* ---- reshape targets from expressions grown at random over constants, shapes of earlier values and everything computed from them ---- *)
KN(p, o, sh, v) == Nd("k" \o p, "Constant", <<>>, <<o>>, <<AT("value", sh, v)>>)
E_(nd, it, id) == [nd |-> nd, it |-> it, id |-> id]
HitsOf(v, srcs) == {h \in (1..Len(srcs)) \X (1..4) : h[2] <= Len(srcs[h[1]].sh) /\ srcs[h[1]].sh[h[2]] = v}
HitOf(v, srcs, s) == LET q == SetToSeq(HitsOf(v, srcs)) IN q[Rnd(s, 7, 1, Len(q))]
RECURSIVE Vec1(_, _, _, _, _), Scal(_, _, _, _, _)
(* an expression for the vector <<v>>, and one for the scalar v; p makes its names *)
Vec1(v, s, d, p, srcs) ==
  LET pick == Rnd(s, 1, 0, IF d = 0 THEN 3 ELSE 9)
      In_(q, w) == Vec1(w, (s * 3) + Len(q) + w + 2, d - 1, p \o q, srcs)
      Const_ == E_(<<KN(p, "o" \o p, <<1>>, <<v>>)>>, <<>>, "o" \o p)
  IN CASE pick = 0 -> Const_
       [] pick = 1 -> E_(<<>>, <<InitN("o" \o p, <<v>>)>>, "o" \o p)
       [] pick \in {2, 3} -> IF HitsOf(v, srcs) = {} THEN Const_
            ELSE LET h == HitOf(v, srcs, s) r == Len(srcs[h[1]].sh) IN E_(<<Nd("s" \o p, "Shape", <<srcs[h[1]].id>>, <<"s" \o p>>, <<>>), KN(p, "k" \o p, <<1>>, <<h[2] - 1>>),
                     Nd("g" \o p, "Gather", <<"s" \o p, "k" \o p>>, <<"o" \o p>>, <<A1("axis", 0)>>)>>, <<>>, "o" \o p)
       [] pick = 4 -> LET e == In_("a", v) IN E_(e.nd \o <<Nd("c" \o p, "Cast", <<e.id>>, <<"o" \o p>>, <<A1("to", 7)>>)>>, e.it, "o" \o p)
       [] pick \in {5, 9} -> LET e == Scal(v, s + 3, d - 1, p \o "u", srcs) IN E_(e.nd \o <<Nd("u" \o p, "Unsqueeze", <<e.id>>, <<"o" \o p>>, <<AI("axes", <<0>>)>>)>>, e.it, "o" \o p)
       [] pick = 6 -> E_(<<KN(p, "k" \o p, <<1, 1>>, <<v>>), Nd("q" \o p, "Squeeze", <<"k" \o p>>, <<"o" \o p>>, <<AI("axes", <<Rnd(s, 2, 0, 1)>>)>>)>>, <<>>, "o" \o p)
       [] pick = 7 -> LET e == In_("b", v) IN E_(e.nd \o <<Nd("u" \o p, "Unsqueeze", <<e.id>>, <<"u" \o p>>, <<AI("axes", <<Rnd(s, 2, 0, 1)>>)>>),
                                                      Nd("q" \o p, "Squeeze", <<"u" \o p>>, <<"o" \o p>>, <<AI("axes", <<Rnd(s, 3, 0, 1)>>)>>)>>, e.it, "o" \o p)
       [] pick = 8 -> LET a == In_("x", v + 1) b == In_("yy", v) c == In_("zzz", 7) IN
            E_(a.nd \o b.nd \o c.nd \o <<Nd("c" \o p, "Concat", <<a.id, b.id, c.id>>, <<"c" \o p>>, <<A1("axis", 0)>>), KN(p, "k" \o p, <<1>>, <<1>>),
                  Nd("g" \o p, "Gather", <<"c" \o p, "k" \o p>>, <<"o" \o p>>, <<A1("axis", 0)>>)>>, a.it \o b.it \o c.it, "o" \o p)
Scal(v, s, d, p, srcs) ==
  LET pick == Rnd(s, 1, 0, IF d <= 0 THEN 3 ELSE 5)
      Const_ == E_(<<KN(p, "o" \o p, <<>>, <<v>>)>>, <<>>, "o" \o p)
  IN CASE pick = 0 -> Const_
       [] pick = 1 -> E_(<<>>, <<InitN0("o" \o p, v)>>, "o" \o p)
       [] pick \in {2, 3} -> IF HitsOf(v, srcs) = {} THEN Const_
            ELSE LET h == HitOf(v, srcs, s) IN E_(<<Nd("s" \o p, "Shape", <<srcs[h[1]].id>>, <<"s" \o p>>, <<>>), KN(p, "k" \o p, <<>>, <<h[2] - 1>>),
                     Nd("g" \o p, "Gather", <<"s" \o p, "k" \o p>>, <<"o" \o p>>, <<A1("axis", 0)>>)>>, <<>>, "o" \o p)
       [] pick = 4 -> LET e == Scal(v, (s * 5) + 1, d - 1, p \o "a", srcs) IN E_(e.nd \o <<Nd("c" \o p, "Cast", <<e.id>>, <<"o" \o p>>, <<A1("to", 7)>>)>>, e.it, "o" \o p)
       [] pick = 5 -> LET e == Vec1(v, (s * 5) + 2, d - 1, p \o "v", srcs) IN E_(e.nd \o <<Nd("q" \o p, "Squeeze", <<e.id>>, <<"o" \o p>>, <<AI("axes", <<0>>)>>)>>, e.it, "o" \o p)
(* the whole target: its entries joined, in one or two steps *)
Target_(t, s, d, p, srcs) ==
  LET es == [i \in 1..Len(t) |-> Vec1(t[i], (s * 7) + (i * 131), d, p \o ToString(i), srcs)]
      nds == FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..Len(t) |-> es[i].nd]) its == FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..Len(t) |-> es[i].it])
      ids == [i \in 1..Len(t) |-> es[i].id]
      J(n, ins, o) == Nd(n \o p, "Concat", ins, <<o \o p>>, <<A1("axis", 0)>>)
  IN IF Len(t) >= 3 /\ Rnd(s, 4, 0, 1) = 0
     THEN E_(nds \o <<J("j", SubSeq(ids, 1, 2), "j"), J("t", <<"j" \o p>> \o SubSeq(ids, 3, Len(t)), "t")>>, its, "t" \o p)
     ELSE E_(nds \o <<J("t", ids, "t")>>, its, "t" \o p)
Tgts == <<(<<1, -1>>), (<<1, 12>>), (<<0, -1>>), (<<1, 2, 6>>), (<<1, 2, -1>>), (<<1, 2, 2, 3>>), (<<0, 0, -1, 3>>), (<<1, 3, 2, 2>>), (<<1, -1, 1, 4>>), (<<-1, 12>>), (<<1, 6, 2>>)>>
Done_(t) == LET f == <<1, 12>> IN IF Len(t) = 2 THEN f ELSE [i \in 1..Len(t) |-> IF t[i] = -1 THEN 12 \div Prod([k \in 1..Len(t) |-> IF k = i THEN 1 ELSE IF t[k] = 0 THEN 2 - (k % 2) ELSE t[k]]) ELSE IF t[i] = 0 THEN (IF i = 1 THEN 1 ELSE 2) ELSE t[i]]
ExprM(s, d) ==
  LET t1 == Choose(s, 1, Tgts) two == Rnd(s, 2, 0, 1) = 1
      t2 == Choose(s, 3, <<(<<1, -1>>), (<<1, 12>>), (<<1, 4, 3>>), (<<1, 1, -1, 2>>), (<<-1, 12>>), (<<1, 3, -1>>)>>)
      e1 == Target_(t1, s + 11, d, "p", <<[id |-> "x", sh |-> <<1, 2, 2, 3>>], [id |-> "h", sh |-> <<1, 2, 2, 3>>]>>)
      e2 == Target_(t2, s + 12, d, "r", <<[id |-> "x", sh |-> <<1, 2, 2, 3>>], [id |-> "q", sh |-> Done_(t1)]>>)
      nds == <<R_0("r0", "x", "h")>> \o e1.nd \o <<Nd("rs", "Reshape", <<"h", e1.id>>, <<"q">>, <<>>)>> \o (IF two THEN e2.nd \o <<R_0("r1", "q", "g"), Nd("rt", "Reshape", <<"g", e2.id>>, <<"qq">>, <<>>)>> ELSE <<>>)
      last == IF two THEN "qq" ELSE "q" sh == IF two THEN Done_(t2) ELSE Done_(t1)
      fin == IF Len(sh) = 2 THEN <<GemmN("ge", last, "k", "", "y")>> ELSE <<GMx("gm", last, "m"), Flt("fl", "m", "y")>>
  IN Mdl(<<1, 2, 2, 3>>, e1.it \o (IF two THEN e2.it ELSE <<>>) \o <<InitF("k", <<4, 12>>, H(Seed + 1, -3, 3))>>, nds \o fin, "y",
         \* the importer takes no value from a Squeeze or Unsqueeze of an initializer: it may refuse
         IF \E n \in DOMAIN nds : nds[n].op \in {"Squeeze", "Unsqueeze"} /\ \E its \in {e1.it, e2.it} : \E i \in DOMAIN its : its[i].id = nds[n].ins[1] THEN "may" ELSE "accept")
Expr(s, d) == Sc(Plain(ExprM(s, d), s), Usual2(s))

(* ---- names: different values and nodes stay different ---- *)
NameM(a, b, c) == Mdl(<<1, 4>>, <<InitF("w", <<4>>, H(Seed, -5, 5))>>,
  <<Nd("n1", "Relu", <<"x">>, <<a>>, <<>>), Nd("n2", "Add", <<"x", "w">>, <<b>>, <<>>), Nd("n3", "Add", <<a, b>>, <<c>>, <<>>), Nd("n4", "Concat", <<a, b, c>>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept")
LayM(n1, n2, n3) == Mdl(<<1, 4>>, <<InitF("w", <<3, 4>>, H(Seed, -5, 5)), InitF("v", <<3, 3>>, H(Seed + 1, -5, 5))>>,
  <<GemmN(n1, "x", "w", "", "p"), GemmN(n2, "p", "v", "", "q"), Nd(n3, "Relu", <<"q">>, <<"y">>, <<>>)>>, "y", "accept")
Soft(M) == [M EXCEPT !.cls = "may"]
Names == {Sc(NameM(n[1], n[2], n[3]), Usual2(3)) : n \in {<<"1", "2", "3">>, <<"a", "A", "aa">>, <<"a.1", "a.2", "a.12">>, <<"conv1/out", "conv2/out", "conv12/out">>, <<"a:0", "b:0", "ab:0">>}}
  \cup {Sc(Soft(NameM(n[1], n[2], n[3])), Usual2(3)) : n \in {<<"a.b", "a:b", "a/b">>, <<"a_b", "a.b", "c">>, <<"a-b", "a b", "a+b">>, <<"input_x", "output_y", "buffer_x">>, <<"kernels", "biases", "run">>, <<"int", "float", "class">>, <<"caf\\u00e9", "b", "c">>}}
  \cup {Sc(LayM(n[1], n[2], n[3]), Usual2(4)) : n \in {<<"a", "b", "c">>, <<"", "", "">>, <<"gemm.1", "gemm.2", "gemm.12">>, <<"a/b/c:0", "a/b/d:0", "a/b/e:0">>}}
  \cup {Sc(Soft(LayM(n[1], n[2], n[3])), Usual2(4)) : n \in {<<"n", "n", "n">>, <<"1", "2", "3">>, <<"a.b", "a/b", "a:b">>, <<"a-b", "b c", "d%">>, <<"a\\\"b", "b", "c">>}}
  \cup {Sc([Mdl(<<1, 4>>, <<>>, <<Nd("n", "Relu", <<a>>, <<b>>, <<>>)>>, b, "accept") EXCEPT !.inp = <<In1(a, <<1, 4>>)>>], Usual2(5)) : a \in {"x", "data:0", "input", "1"}, b \in {"y", "out/1", "output", "2"}}

(* ---- blocks of real networks ---- *)
CB(n, i, w, b, o, k, st, pd) == Nd(n, "Conv", IF b = "" THEN <<i, w>> ELSE <<i, w, b>>, <<o>>, <<A1("group", 1), AI("kernel_shape", k), AI("pads", pd), AI("strides", st)>>)
R_(n, i, o) == Nd(n, "Relu", <<i>>, <<o>>, <<>>)
Ad(n, i, j, o) == Nd(n, "Add", <<i, j>>, <<o>>, <<>>)
WF(id, sh, k) == InitF(id, sh, H(S0(20, k), -2, 2))
Blocks(s) ==
  {(* residual block, with and without projection *)
   Mdl(<<1, 2, 4, 4>>, <<WF("w1", <<2, 2, 3, 3>>, s), WF("w2", <<2, 2, 3, 3>>, s + 1), WF("b1", <<2>>, s + 2)>>,
       <<CB("c1", "x", "w1", "b1", "h1", <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>), R_("r1", "h1", "h2"), CB("c2", "h2", "w2", "", "h3", <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>), Ad("a", "h3", "x", "h4"), R_("r2", "h4", "h5"),
         GMx("g", "h5", "h6"), Flt("f", "h6", "y")>>, "y", "accept"),
   Mdl(<<1, 2, 4, 4>>, <<WF("w1", <<3, 2, 3, 3>>, s), WF("w2", <<3, 2, 1, 1>>, s + 1)>>,
       <<CB("c1", "x", "w1", "", "h1", <<3, 3>>, <<2, 2>>, <<1, 1, 1, 1>>), CB("c2", "x", "w2", "", "h2", <<1, 1>>, <<2, 2>>, <<0, 0, 0, 0>>), Ad("a", "h2", "h1", "h3"), R_("r", "h3", "h4"), Flt("f", "h4", "y")>>, "y", "accept"),
   (* inception block *)
   Mdl(<<1, 2, 4, 4>>, <<WF("w1", <<1, 2, 1, 1>>, s), WF("w2", <<2, 2, 3, 3>>, s + 1), WF("w3", <<1, 2, 5, 5>>, s + 2)>>,
       <<CB("c1", "x", "w1", "", "h1", <<1, 1>>, <<1, 1>>, <<0, 0, 0, 0>>), CB("c2", "x", "w2", "", "h2", <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>), CB("c3", "x", "w3", "", "h3", <<5, 5>>, <<1, 1>>, <<2, 2, 2, 2>>),
         Nd("p", "MaxPool", <<"x">>, <<"h4">>, <<AI("kernel_shape", <<3, 3>>), AI("pads", <<1, 1, 1, 1>>), AI("strides", <<1, 1>>)>>),
         Nd("k", "Concat", <<"h1", "h2", "h3", "h4">>, <<"h5">>, <<A1("axis", 1)>>), R_("r", "h5", "h6"), Flt("f", "h6", "y")>>, "y", "accept"),
   (* fire module *)
   Mdl(<<1, 3, 3, 3>>, <<WF("w1", <<2, 3, 1, 1>>, s), WF("w2", <<2, 2, 1, 1>>, s + 1), WF("w3", <<2, 2, 3, 3>>, s + 2), WF("b", <<2>>, s + 3)>>,
       <<CB("c1", "x", "w1", "b", "h1", <<1, 1>>, <<1, 1>>, <<0, 0, 0, 0>>), R_("r1", "h1", "h2"), CB("c2", "h2", "w2", "b", "h3", <<1, 1>>, <<1, 1>>, <<0, 0, 0, 0>>), R_("r2", "h3", "h4"),
         CB("c3", "h2", "w3", "b", "h5", <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>), R_("r3", "h5", "h6"), Nd("k", "Concat", <<"h4", "h6">>, <<"h7">>, <<A1("axis", 1)>>), GMx("g", "h7", "h8"), Flt("f", "h8", "y")>>, "y", "accept"),
   (* dense connections *)
   Mdl(<<1, 2, 3, 3>>, <<WF("w1", <<1, 2, 3, 3>>, s), WF("w2", <<1, 3, 3, 3>>, s + 1), WF("w3", <<1, 4, 1, 1>>, s + 2)>>,
       <<CB("c1", "x", "w1", "", "h1", <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>), Nd("k1", "Concat", <<"x", "h1">>, <<"h2">>, <<A1("axis", 1)>>), CB("c2", "h2", "w2", "", "h3", <<3, 3>>, <<1, 1>>, <<1, 1, 1, 1>>),
         Nd("k2", "Concat", <<"h2", "h3">>, <<"h4">>, <<A1("axis", 1)>>), CB("c3", "h4", "w3", "", "h5", <<1, 1>>, <<1, 1>>, <<0, 0, 0, 0>>), Nd("k3", "Concat", <<"h5", "h3", "x">>, <<"h6">>, <<A1("axis", 1)>>), Flt("f", "h6", "y")>>, "y", "accept"),
   (* a multi-layer perceptron with a skip *)
   Mdl(<<1, 5>>, <<WF("w1", <<4, 5>>, s), WF("w2", <<4, 4>>, s + 1), WF("b1", <<4>>, s + 2), WF("w3", <<8, 3>>, s + 3), WF("b3", <<3>>, s + 4)>>,
       <<GemmN("g1", "x", "w1", "b1", "h1"), R_("r1", "h1", "h2"), GemmN("g2", "h2", "w2", "b1", "h3"), Ad("a", "h3", "h1", "h4"), Nd("k", "Concat", <<"h4", "h2">>, <<"h5">>, <<A1("axis", 1)>>),
         Nd("mm", "MatMul", <<"h5", "w3">>, <<"h6">>, <<>>), Ad("ab", "h6", "b3", "y")>>, "y", "accept"),
   (* one dimensional convolutions *)
   Mdl(<<1, 2, 9>>, <<WF("w1", <<3, 2, 3>>, s), WF("w2", <<3, 3, 3>>, s + 1), WF("b1", <<3>>, s + 2)>>,
       <<CB("c1", "x", "w1", "b1", "h1", <<3>>, <<1>>, <<1, 1>>), R_("r1", "h1", "h2"), CB("c2", "h2", "w2", "b1", "h3", <<3>>, <<1>>, <<1, 1>>), Ad("a", "h3", "h1", "h4"),
         Nd("p", "MaxPool", <<"h4">>, <<"h5">>, <<AI("kernel_shape", <<2>>), AI("strides", <<2>>)>>), Flt("f", "h5", "y")>>, "y", "accept")}
BlockCases(s) == {Sc(Plain(M, S0(21, s)), Usual(H(S0(22, s), -4, 4), H(S0(23, s), -4, 4))) : M \in Blocks(s)}
  \cup {Sc(Plain([M EXCEPT !.vi = "none"], S0(24, s)), Usual(H(S0(22, s), -4, 4), H(S0(23, s), -4, 4)))
          : M \in {[M EXCEPT !.cls = "may"] : M \in Blocks(s)}}

(* ---- networks grown at random; b bounds the magnitude of a value ---- *)
AnyV(v) == TRUE
ValsOf(g, F(_)) == {i \in 1..Len(g.vals) : F(g.vals[i])}
PickV(g, s, F(_)) ==   \* prefers recent values
  LET ok == ValsOf(g, F) IN IF ok = {} THEN 0
  ELSE LET m == CHOOSE i \in ok : \A j \in ok : j <= i IN IF Rnd(s, 1, 0, 2) > 0 THEN m ELSE SetToSeq(ok)[1 + Rnd(s, 2, 0, Cardinality(ok) - 1)]
Push(g, k, nd, its, sh, b) == [nodes |-> Append(g.nodes, nd), inits |-> g.inits \o its, vals |-> Append(g.vals, [id |-> nd.outs[1], sh |-> sh, b |-> b, used |-> FALSE]), used |-> g.used \cup {nd.ins[i] : i \in 1..Len(nd.ins)}]

Grow1(g, k, s) ==
  LET o == "v" \o ToString(k) n == "n" \o ToString(k) w == "w" \o ToString(k) bb == "b" \o ToString(k)
      pick == Rnd(s, 3, 0, 13)
      i == PickV(g, s, AnyV) v == g.vals[i]
      F4(F(_)) == PickV(g, s, LAMBDA u : Len(u.sh) = 4 /\ F(u))
      c4 == F4(LAMBDA u : u.b < 3000)
      p4 == F4(LAMBDA u : u.sh[3] >= 2 /\ u.sh[4] >= 2)
      c2 == PickV(g, s, LAMBDA u : Len(u.sh) = 2 /\ u.b < 20000 /\ u.sh[2] <= 40)
      e == PickV(g, s, LAMBDA u : u.b < 400000)
      Two(sh) == PickV(g, s + 7, LAMBDA u : u.sh = sh /\ u.b < 400000)
  IN CASE pick <= 1 /\ c4 > 0 ->
            LET u == g.vals[c4] kk == Rnd(s, 4, 0, 2) K == <<(<<1, 1>>), (<<3, 3>>), (<<1, 3>>)>>[kk + 1]
                pd == IF Rnd(s, 5, 0, 1) = 1 \/ \E d \in 1..2 : u.sh[d + 2] < K[d] THEN <<K[1] \div 2, K[2] \div 2, K[1] \div 2, K[2] \div 2>> ELSE <<0, 0, 0, 0>>
                st == <<Rnd(s, 6, 1, 2), 1>> co == Rnd(s, 7, 1, 3) bias == Rnd(s, 8, 0, 1) = 1
                hw == [d \in 1..2 |-> ((u.sh[d + 2] + pd[d] + pd[d + 2] - K[d]) \div st[d]) + 1]
            IN Push(g, k, CB(n, u.id, w, IF bias THEN bb ELSE "", o, K, st, pd), <<WF(w, <<co, u.sh[2]>> \o K, s)>> \o (IF bias THEN <<WF(bb, <<co>>, s + 1)>> ELSE <<>>),
                    <<1, co>> \o hw, (u.b * 2 * u.sh[2] * K[1] * K[2]) + 2)
       [] pick = 2 /\ p4 > 0 ->
            LET u == g.vals[p4] st == Rnd(s, 4, 1, 2) IN
            Push(g, k, Nd(n, "MaxPool", <<u.id>>, <<o>>, <<AI("kernel_shape", <<2, 2>>), AI("strides", <<st, st>>)>>), <<>>, <<1, u.sh[2], ((u.sh[3] - 2) \div st) + 1, ((u.sh[4] - 2) \div st) + 1>>, u.b)
       [] pick \in {3, 4} /\ c2 > 0 ->
            LET u == g.vals[c2] co == Rnd(s, 7, 1, 6) bias == Rnd(s, 8, 0, 1) = 1 IN
            IF pick = 3 THEN Push(g, k, GemmN(n, u.id, w, IF bias THEN bb ELSE "", o), <<WF(w, <<co, u.sh[2]>>, s)>> \o (IF bias THEN <<WF(bb, <<co>>, s + 1)>> ELSE <<>>), <<1, co>>, (u.b * 2 * u.sh[2]) + 2)
            ELSE Push(g, k, Nd(n, "MatMul", <<u.id, w>>, <<o>>, <<>>), <<WF(w, <<u.sh[2], co>>, s)>>, <<1, co>>, u.b * 2 * u.sh[2])
       [] pick \in {5, 6} /\ e > 0 ->
            LET u == g.vals[e] j == Two(u.sh) t == g.vals[j] IN Push(g, k, Ad(n, u.id, t.id, o), <<>>, u.sh, u.b + t.b)
       [] pick \in {7, 8} /\ Prod(v.sh) <= 60 ->
            LET j == PickV(g, s + 7, LAMBDA u : Len(u.sh) = Len(v.sh) /\ SubSeq(u.sh, 3, Len(u.sh)) = SubSeq(v.sh, 3, Len(v.sh))) t == g.vals[j] IN
            Push(g, k, Nd(n, "Concat", <<v.id, t.id>>, <<o>>, <<A1("axis", 1)>>), <<>>, [v.sh EXCEPT ![2] = @ + t.sh[2]], MaxOf(v.b, t.b))
       [] pick = 9 /\ e > 0 -> LET u == g.vals[e] f == <<-1, 2, -2, 3>>[Rnd(s, 4, 1, 4)] IN Push(g, k, Nd(n, "Mul", <<u.id, w>>, <<o>>, <<>>), <<InitS(w, f, 0)>>, u.sh, u.b * AbsV(f))
       [] pick = 10 -> Push(g, k, Nd(n, "Clip", <<v.id>>, <<o>>, <<AF("max", 40, 0), AF("min", -30, 0)>>), <<>>, v.sh, MinOf(v.b, 40))
       [] pick = 11 -> (* a reshape, often one that does nothing *)
            LET tgt == CASE Rnd(s, 4, 0, 2) = 0 -> v.sh [] Rnd(s, 4, 0, 2) = 1 -> <<1, Prod(v.sh)>> [] OTHER -> <<1, Prod(v.sh), 1, 1>> IN
            Push(g, k, Nd(n, "Reshape", <<v.id, w>>, <<o>>, <<>>), <<InitN(w, tgt)>>, tgt, v.b)
       [] pick = 12 /\ Len(v.sh) = 4 -> IF Rnd(s, 4, 0, 1) = 0 THEN Push(g, k, Nd(n, "GlobalMaxPool", <<v.id>>, <<o>>, <<>>), <<>>, <<1, v.sh[2], 1, 1>>, v.b)
            ELSE Push(g, k, Nd(n, "Transpose", <<v.id>>, <<o>>, <<AI("perm", <<0, 2, 3, 1>>)>>), <<>>, <<1, v.sh[3], v.sh[4], v.sh[2]>>, v.b)
       [] OTHER -> Push(g, k, R_(n, v.id, o), <<>>, v.sh, v.b)
RECURSIVE Grow(_, _, _, _)
Grow(g, k, n, s) == IF k > n THEN g ELSE Grow(TLCEval(Grow1(g, k, (s * 37) + (k * 1009))), k + 1, n, s)
GrownM(n, s) ==
  LET sh == InSh(1 + (s % 3)) ish == IF s % 3 = 2 THEN <<1, 2, 4, 3>> ELSE IF s % 3 = 1 THEN <<1, 3, 3, 4>> ELSE <<1, 6>>
      g == Grow([nodes |-> <<>>, inits |-> <<>>, vals |-> <<[id |-> "x", sh |-> ish, b |-> 9, used |-> FALSE]>>, used |-> {}], 1, n, s)
      loose == SelectSeq(g.vals, LAMBDA v : v.id \notin g.used)
      fl == [i \in 1..Len(loose) |-> Flt("fl" \o ToString(i), loose[i].id, "z" \o ToString(i))]
      tail == fl \o <<Nd("all", "Concat", [i \in 1..Len(loose) |-> "z" \o ToString(i)], <<"y">>, <<A1("axis", 1)>>)>>
  IN Mdl(ish, g.inits, g.nodes \o tail, "y", "accept")
Grown(n, s) == Sc(Plain(GrownM(n, s), s), Usual(H(s + 1, -9, 9), H(s + 2, -9, 9)))
GrowN == IF Tier = 0 THEN 40 ELSE 400
GKeys == {k \in Key2 : FitKey(k)} \cup ({"nop"} \X {1, 2, 3} \X Hows) \cup ({"z"} \X {"rank", "const", "names", "zero"} \X {0}) \cup ({"block"} \X (1..3) \X {0})
         \cup ({"expr"} \X (0..3) \X (1..(GrowN \div 5)))
         \cup ({"grow"} \X (4..12) \X (1..(GrowN \div 5)))
GCases(ky) ==
  CASE ky[1] = "dag" -> Dags(ky[2], ky[3]) \cup Dags4(ky[2], ky[3])
    [] ky[1] = "nop" -> Nops(InSh(ky[2]), ky[3])
    [] ky[1] = "block" -> BlockCases(ky[2])
    [] ky[1] = "grow" -> {Grown(ky[2], S0(30, (ky[2] * 100) + (ky[3] * 5) + j)) : j \in 0..4}
    [] ky[1] = "expr" -> {Expr(S0(40, (ky[2] * 100) + (ky[3] * 5) + j), ky[2]) : j \in 0..4}
    [] ky[2] = "zero" -> UNION {ZeroCases(sh, r) : r \in 2..4, sh \in {<<1, 3, 2, 2>>, <<1, 6, 2>>, <<1, 12>>}}
    [] ky[2] = "rank" -> RankCases [] ky[2] = "const" -> Consts [] ky[2] = "names" -> Names
=============================================================================
