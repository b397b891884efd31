------------------------------- MODULE GenC33 -------------------------------
(* C33: what a tensor prints, what a layer says it is *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
S0(a, b) == (Seed * 5167) + (a * 139) + b
Q == Tier = 0
Fmts == <<"plain", "precise", "fixed", "scientific", "sign">>
Sh(q) == Len(q)
Small == {<<a>> : a \in 1..4} \cup {<<a, b>> : a \in 1..4, b \in 1..4} \cup {<<a, b, c>> : a \in 1..3, b \in 1..3, c \in 1..4}
         \cup {<<a, b, c, d>> : a \in 1..3, b \in 1..3, c \in 1..3, d \in 1..3}
Wide == {<<1, 40>>, <<40, 1>>, <<2, 25, 2>>, <<12, 2, 3>>, <<1, 12, 2, 2>>, <<11, 1, 1, 2>>, <<1, 1, 30, 2>>, <<2, 1, 1, 33>>, <<300>>, <<1, 300>>, <<260, 1>>, <<1, 1, 300>>, <<2, 1, 1, 300>>, <<1, 300, 1>>, <<300, 1, 2>>, <<1, 1, 300, 1>>, <<1, 300, 1, 1>>, <<300, 1, 1, 1>>, <<1, 2, 1100>>, <<1100>>, <<2, 1100>>, <<1, 1, 2, 1100>>}
Gens(s) == <<H(s, -9, 9), HX(s, -999, 999, -3), HX(s, -20000, 20000, 9), Pats(s), Const(0)>>
(* printed as created, filled, filled again, beside another tensor *)
Show(sh, s) == <<New("x", sh), ShowA("x", "plain")>> \o NewF("y", <<2, 2>>, H(s, -5, 5))
   \o FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..5 |-> <<FillA("x", Gens(s + i)[i]), ShowA("x", Fmts[1 + ((s + i) % 5)]), ShowA("x", "precise")>>])
   \o <<ShowA("y", "plain"), Free("x"), ShowA("y", "plain")>>
(* of what operations produce *)
Made(s) == LET sh == <<1, Rnd(s, 1, 1, 3), Rnd(s, 2, 1, 3), Rnd(s, 3, 1, 4)>> IN
  NewF("x", sh, H(s, -9, 9)) \o <<PadNew("x", "p", <<1, 0, 2, 1>>, 5), ShowA("p", "plain"), New("c", <<Prod(sh)>>), CopyA("x", "c"), ShowA("c", "plain"),
    New("k", <<1, 2 * sh[2], sh[3], sh[4]>>), CatA(<<"x", "x">>, "k", 1), ShowA("k", "plain"), MkA("r", LReLU), RunA("r", "x", "x"), ShowA("x", "sign")>>

(* ---- layers ---- *)
LongName == "a_very_long_name_with/slashes:0.and-dots....................................................................................................................................................end"
TNames == <<"", "conv1", "x", "a b", "fc/0:1", LongName>>
Nums == <<0, 1, 41, 65536, 2147483647>>
Params == NewF("w", <<2, 2, 1, 1>>, H(3, -2, 2)) \o NewF("b", <<2>>, H(4, -2, 2)) \o NewF("f", <<3, 4>>, H(5, -2, 2)) \o NewF("v", <<4, 3>>, H(6, -2, 2)) \o NewF("s", <<1, 2, 3, 3>>, H(7, -2, 2))
          \o NewF("q", <<2>>, Const(1)) \o NewF("in", <<1, 2, 3, 3>>, H(8, -9, 9)) \o NewF("row", <<1, 4>>, H(9, -9, 9))
Kinds == << <<LConv("w", "b", <<>>, <<1, 1>>, 1), "in", <<1, 2, 3, 3>>>>, <<LMax(<<2, 2>>, <<1, 1>>, <<>>), "in", <<1, 2, 2, 2>>>>, <<LAvg(<<2, 2>>, <<1, 1>>, <<>>, TRUE), "in", <<1, 2, 2, 2>>>>,
            <<LGMax, "in", <<1, 2, 1, 1>>>>, <<LGAvg, "in", <<1, 2, 1, 1>>>>, <<LFc("f", ""), "row", <<1, 3>>>>, <<LMatMul("v"), "row", <<1, 3>>>>,
            <<LBn("q", "q", "q", "q", 0, 0, <<1, 1>>, 0), "in", <<1, 2, 3, 3>>>>, <<LIdent, "in", <<1, 2, 3, 3>>>>, <<LReLU, "in", <<1, 2, 3, 3>>>>, <<LLeaky(1, 2), "in", <<1, 2, 3, 3>>>>,
            <<LPReLU("s"), "in", <<1, 2, 3, 3>>>>, <<LClip(-4, 5, "i"), "in", <<1, 2, 3, 3>>>>, <<LSigmoid, "", <<>>>>, <<LTanh, "", <<>>>>, <<LSoftmax, "", <<>>>>, <<LLrn(1, 2, 4, 3), "", <<>>>> >>
Ty(s) == Rnd(s, 5, 0, 24)
(* made, asked, run, asked again while others come and go *)
Who(k, s) ==
  LET K == Kinds[k] L == Called(K[1], Choose(s, 1, TNames), Choose(s, 2, Nums), Ty(s))
      o == 1 + ((k + s) % Len(Kinds)) M == Called(Kinds[o][1], Choose(s, 3, TNames), Choose(s, 4, Nums), Ty(s + 1))
      go == IF K[2] = "" THEN <<>> ELSE <<New("out", K[3]), RunA("l", K[2], "out"), WhoA("l")>>
  IN Params \o <<MkA("l", L), WhoA("l"), MkA("m", M), WhoA("m"), WhoA("l")>> \o go \o <<DelA("m"), WhoA("l"), MkA("m", Called(L, "other", 7, 3)), WhoA("m"), WhoA("l"), DelA("l"), WhoA("m"), DelA("m")>>
GKeys == {<<"s", sh, 1>> : sh \in Small \cup Wide} \cup {<<"made", <<i>>, 1>> : i \in 1..(IF Q THEN 30 ELSE 300)} \cup {<<"who", <<k>>, i>> : k \in 1..Len(Kinds), i \in 1..(IF Q THEN 8 ELSE 40)}
GCases(ky) == CASE ky[1] = "s" -> {Show(ky[2], S0(Len(ky[2]), Prod(ky[2]) + j)) : j \in 1..(IF Q THEN 1 ELSE 5)}
                [] ky[1] = "made" -> {Made(S0(9, ky[2][1]))}
                [] ky[1] = "who" -> {Who(ky[2][1], S0(20 + ky[2][1], ky[3]))}
=============================================================================
