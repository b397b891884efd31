------------------------------- MODULE GenC31 -------------------------------
(* C31: the command line import, onnx_to_pico_cnn.py --input FILE *)
EXTENDS PicoModels
S0(a, b) == (Seed * 6271) + (a * 131) + b
Q == Tier = 0
Rl(n, i, o) == Nd(n, "Relu", <<i>>, <<o>>, <<>>)
CvN(n, i, w, b, o, k, pd) == Nd(n, "Conv", IF b = "" THEN <<i, w>> ELSE <<i, w, b>>, <<o>>, <<AI("kernel_shape", k)>> \o Opt_("pads", pd) \o <<AI("strides", Ones(Len(k)))>>)
(* ---- the models; dimension 0 of every intermediate value is the batch ---- *)
Convs(s) == Mdl(<<1, 1, 6, 6>>, <<InitF("w", <<2, 1, 3, 3>>, H(s, -2, 2)), InitF("b", <<2>>, H(s + 1, -9, 9)), InitF("v", <<3, 8>>, H(s + 2, -2, 2)), InitF("c", <<3>>, H(s + 3, -9, 9)), InitN("t", <<-1, 8>>)>>,
     <<CvN("c1", "x", "w", "b", "h1", <<3, 3>>, <<>>), Rl("r1", "h1", "h2"), Nd("p1", "MaxPool", <<"h2">>, <<"h3">>, <<AI("kernel_shape", <<2, 2>>), AI("strides", <<2, 2>>)>>),
       Nd("rs", "Reshape", <<"h3", "t">>, <<"h4">>, <<>>), GemmN("g", "h4", "v", "c", "y")>>, "y", "accept")
Rows(s) == Mdl(<<1, 5>>, <<InitF("w", <<4, 5>>, H(s, -3, 3)), InitF("b", <<4>>, H(s + 1, -9, 9)), InitF("v", <<4, 3>>, H(s + 2, -3, 3)), InitF("c", <<3>>, H(s + 3, -9, 9))>>,
     <<GemmN("g1", "x", "w", "b", "h1"), Rl("r", "h1", "h2"), Nd("m", "MatMul", <<"h2", "v">>, <<"h3">>, <<>>), Nd("a", "Add", <<"h3", "c">>, <<"y">>, <<>>)>>, "y", "accept")
Lines_(s) == Mdl(<<1, 2, 7>>, <<InitF("w", <<3, 2, 3>>, H(s, -2, 2)), InitF("b", <<3>>, H(s + 1, -9, 9))>>,
     <<CvN("c1", "x", "w", "b", "h1", <<3>>, <<1, 1>>), Nd("p", "AveragePool", <<"h1">>, <<"h2">>, <<AI("kernel_shape", <<2>>), AI("pads", <<0, 0>>), AI("strides", <<2>>)>>),
       Nd("f", "Flatten", <<"h2">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept")
Branchy(s) == Mdl(<<1, 2, 3, 3>>, <<InitF("w", <<2, 2, 1, 1>>, H(s, -2, 2)), InitF("b", <<2>>, H(s + 1, -9, 9))>>,
     <<CvN("c1", "x", "w", "b", "h1", <<1, 1>>, <<>>), Rl("r1", "h1", "h2"), Nd("a", "Add", <<"h1", "h2">>, <<"h3">>, <<>>),
       Nd("k", "Concat", <<"h3", "h2", "x">>, <<"h4">>, <<A1("axis", 1)>>), Nd("g", "GlobalMaxPool", <<"h4">>, <<"h5">>, <<>>),
       Nd("f", "Flatten", <<"h5">>, <<"y">>, <<A1("axis", 1)>>)>>, "y", "accept")
Menu(s) == <<Convs(s), Rows(s), Lines_(s), Branchy(s)>>
Refused(s) == [Convs(s) EXCEPT !.nodes[2] = Nd("r1", "Sigmoid", <<"h1">>, <<"h2">>, <<>>)]
Dilated(s) == [Convs(s) EXCEPT !.nodes[1].at = @ \o <<AI("dilations", <<2, 2>>)>>, !.nodes[3].at[1] = AI("kernel_shape", <<1, 1>>), !.nodes[3].at[2] = AI("strides", <<1, 1>>)]
Two(s) == [Rows(s) EXCEPT !.outs = <<"y", "h2">>]

(* ---- Dropout on the edges of a model: after the k-th node, or (0) on the input ---- *)
Ratio(r) == AF("ratio", r[1], r[2])
Drop(n, i, outs, r) == Nd(n, "Dropout", <<i>>, outs, <<Ratio(r)>>)
InsertDrop(M, k, id, mask, r) ==
  LET new == id \o "v"
      outs(o) == IF mask THEN <<o, id \o "m">> ELSE <<o>>
      ren(q, a) == [i \in 1..Len(q) |-> IF q[i] = a THEN new ELSE q[i]]
  IN IF k = 0 THEN [M EXCEPT !.nodes = <<Drop(id, "x", outs(new), r)>> \o [i \in 1..Len(@) |-> [@[i] EXCEPT !.ins = ren(@, "x")]]]
     ELSE LET o == M.nodes[k].outs[1] IN
          [M EXCEPT !.nodes = [i \in 1..k |-> IF i = k THEN [M.nodes[k] EXCEPT !.outs = <<new>>] ELSE M.nodes[i]]
                              \o <<Drop(id, new, outs(o), r)>> \o SubSeq(M.nodes, k + 1, Len(M.nodes))]
Ids_ == <<"da", "db", "dc", "dd", "de", "df", "dg">>
Ratios == << <<1, -1>>, <<1, -2>>, <<0, 0>>, <<7, -3>>, <<1, 0>> >>
RECURSIVE DropAt(_, _, _, _)
(* positions from the back to the front, so that the numbering of the nodes in front stays *)
DropAt(M, ks, n, s) == IF ks = {} THEN M ELSE LET k == CHOOSE k \in ks : \A l \in ks : l <= k IN
  DropAt(InsertDrop(M, k, Ids_[n], Rnd(s, n, 0, 2) = 0, Choose(s + 1, n, Ratios)), ks \ {k}, n + 1, s)
Twice(M, k, s) == InsertDrop(InsertDrop(M, k, "da", FALSE, <<1, -1>>), k, "db", Rnd(s, 3, 0, 1) = 0, <<1, -2>>)

(* ---- paths: directory, stem (up to the first dot), the rest ---- *)
Dirs == <<"", "./", "models/", "a.b/c/", "models/../models-2/", "./x.onnx/">>
Stems == <<"net", "lenet_5", "a-b", "x9", "Net", "a_network_with_a_name_of_more_than_thirty_two_and_of_more_than_sixty_four_characters">>
Exts == <<".onnx", ".v1.2.onnx", ".opt.onnx", "">>
Batches == {"one", "sym", "num", "none"}
Named(M, st) == [M EXCEPT !.nm = st]
Single(M, d, st, e, b, s) == Sc(Named(M, st), <<HImp(d, st, e, b, 0)>> \o Usual(G(s + 1), G(s + 2)))
Ways(M, s) == {Single(M, Choose(s, Cardinality({b}) + i, Dirs), Choose(s + 1, i, Stems), Choose(s + 2, i, Exts), b, s) : b \in Batches, i \in 1..(IF Q THEN 3 ELSE 12)}
AllPaths(M, s) == {Single(M, Dirs[i], Stems[1 + ((i + j) % 6)], Exts[j], "sym", s) : i \in 1..6, j \in 1..4}
Inner(M) == 0..(Len(M.nodes) - 1)
Drops(k, s) == LET M == Menu(s)[k] IN
  {Single(DropAt(M, ks, 1, s + Cardinality(ks)), "", "net", ".onnx", b, s) : ks \in {ks \in SUBSET (0..Len(M.nodes)) : ks # {} /\ Cardinality(ks) <= (IF Q THEN 2 ELSE 4)}, b \in (IF Q THEN {"sym"} ELSE Batches)}
  \cup {Single(Twice(M, i, s), "", "net", ".onnx", b, s) : i \in 0..Len(M.nodes), b \in {"one", "num"}}
  \cup {Single(DropAt(M, 0..Len(M.nodes), 1, s), "", "net", ".onnx", b, s) : b \in Batches}

(* ---- several imports in one directory ---- *)
(* others: 1 the same architecture with other weights, under this name; 2 another model under this name;
   3 another model under another name; 4 an unsupported one under a third name; 5 one that differs in the case of its name;
   6, 7, 8 models refused for an operator, an attribute, a second output, under this name *)
OthersOf(k, s) == <<Named(Menu(s + 50)[k], "net"), Named(Menu(s + 60)[1 + (k % 4)], "net"), Named(Menu(s + 70)[1 + ((k + 1) % 4)], "other"), Named(Refused(s), "bad"), Named(Menu(s + 80)[k], "Net"), Named(Refused(s + 90), "net"), Named(Dilated(s + 91), "net"), Named(Two(s + 92), "net")>>
StemOf == <<"net", "net", "other", "bad", "Net", "net", "net", "net">>
Step(i, j) == IF i = 0 THEN HImp(Dirs[1 + (j % 5)], "net", Exts[1 + (j % 3)], IF j % 2 = 0 THEN "sym" ELSE "one", 0)
              ELSE HImp(Dirs[1 + ((i + j) % 5)], StemOf[i], Exts[1 + (i % 3)], "one", i)
Seqs(n, U) == UNION {[1..m -> U] : m \in 2..n}
Valid(q) == /\ \E j \in 1..Len(q) : q[j] = 0 /\ \A l \in (j + 1)..Len(q) : q[l] \notin {1, 2}
Trees(k, n, U, s) == LET M == Named(Menu(s)[k], "net") IN
  {[m |-> M, hist |-> [j \in 1..Len(q) |-> Step(q[j], j)] \o Usual(G(s + 1), G(s + 2)), others |-> OthersOf(k, s)] : q \in {q \in Seqs(n, U) : Valid(q)}}
GKeys == ({"ways", "paths", "drops", "trees"} \X (1..4)) \cup {<<"deep", 1>>}
GCases(ky) ==
  CASE ky[1] = "ways" -> UNION {Ways(Menu(S0(1, j))[ky[2]], S0(2, j)) : j \in 1..(IF Q THEN 2 ELSE 8)}
    [] ky[1] = "paths" -> AllPaths(Menu(S0(3, 1))[ky[2]], S0(3, 2))
    [] ky[1] = "drops" -> Drops(ky[2], S0(4, ky[2]))
    [] ky[1] = "trees" -> Trees(ky[2], IF Q THEN 2 ELSE 3, 0..8, S0(5, ky[2]))
    [] ky[1] = "deep" -> Trees(2, IF Q THEN 3 ELSE 5, {0, 1, 3, 6}, S0(6, 1)) \cup Trees(3, IF Q THEN 3 ELSE 4, {0, 2, 4, 5, 8}, S0(6, 2))
=============================================================================
