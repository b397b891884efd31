---------------------------- MODULE PicoShipped -----------------------------
(***************************************************************************)
(* The models and reference data that come with the repository.  Shape     *)
(* inference runs over each model's graph node by node; then the model is  *)
(* imported from the command line and its reference program run on every   *)
(* pair of a shipped input and a shipped output, as they are and with one  *)
(* element changed.  The file named by SHIPPED holds, per model,           *)
(*   [m |-> the model, data |-> its pairs: [inp, ref, insh, out]], where   *)
(* out are the reference output's values in units of 2^-11, rounded.       *)
(***************************************************************************)
EXTENDS PicoImport
CONSTANTS Seed, Tier
NoCases(ky) == {}
Shipped == JsonDeserialize(IOEnv.SHIPPED)
VARIABLES k, st, n, runs
svars == <<k, st, n, runs>>
M == Shipped[k].m
Pairs == Shipped[k].data
Flat4(sh) == CASE Len(sh) = 4 -> sh [] Len(sh) = 3 -> <<sh[1], sh[2], 1, sh[3]>> [] Len(sh) = 2 -> <<1, 1, sh[1], sh[2]>>
SInit == k \in 1..Len(Shipped) /\ st = [s |-> Shapes0(Shipped[k].m), c |-> Consts0(Shipped[k].m)] /\ n = 1 /\ runs = <<>>
          /\ key = 0 /\ sc = NoSc /\ pc = 0 /\ inst = EmptyF /\ env = EmptyF /\ nx = 0 /\ log = <<>> /\ tree = EmptyF
Infer == /\ n >= 1 /\ n <= Len(M.nodes)
         /\ LET nd == M.nodes[n] o == nd.outs[1] IN
            st' = [s |-> (o :> NodeShape(nd, st.s, st.c)) @@ st.s,
                   c |-> IF IsConstNode(nd, st.c) THEN (o :> NodeValue(nd, st.c)) @@ st.c ELSE st.c]
         /\ n' = n + 1 /\ UNCHANGED <<k, runs>> /\ UNCHANGED vars
AbsD(a, b) == IF a > b THEN a - b ELSE b - a
(* the model computes pair i's output on pair i's input; it agrees with reference values within 0.001 *)
Distance(i, j, el, del) ==
  LET a == Pairs[i].out b == Pairs[j].out IN SeqMax([e \in 1..Len(a) |-> AbsD(a[e], b[e] + (IF e = el THEN del ELSE 0))])
RunRef == /\ n = Len(M.nodes) + 1 /\ runs = <<>>
          /\ LET R(i, j, el, del) == [i |-> i, j |-> j, inp |-> Pairs[i].inp, ref |-> Pairs[j].ref, el |-> el, del |-> del, d |-> Distance(i, j, el, del),
                                      verdict |-> IF Distance(i, j, el, del) = 0 THEN "agree" ELSE "differ"]
                 outs == 1..Len(Pairs[1].out)
                 S == {R(i, j, 1, 0) : i \in 1..Len(Pairs), j \in 1..Len(Pairs)}
                      \cup {R(i, i, el, del) : i \in 1..Len(Pairs), el \in outs, del \in {20, -20}}
             IN runs' = SetToSeq({r \in S : r.d = 0 \/ r.d >= 10})
          /\ UNCHANGED <<k, st, n>> /\ UNCHANGED vars
SFinish == /\ n = Len(M.nodes) + 1 /\ runs # <<>>
           /\ Emit => PrintT(ToJson([model |-> M, verdict |-> Verdict(M, st), shapes |-> st.s, consts |-> DOMAIN st.c, src |-> Shipped[k].src, runs |-> runs, others |-> <<>>,
                        hist |-> <<[op |-> "import", i |-> 0, dir |-> "", stem |-> M.nm, ext |-> ".onnx", batch |-> "one", src |-> Shipped[k].src]>>]))
           /\ n' = -1 /\ UNCHANGED <<k, st, runs>> /\ UNCHANGED vars
SNext == Infer \/ RunRef \/ SFinish
SSpec == SInit /\ [][SNext]_<<svars, vars>>
SView == <<k, n, runs>>
(* ---- properties of the model ---- *)
STypeOK == n \in -1..30
SupportedModel == n > Len(M.nodes) => Verdict(M, st) = "accept"
(* the inferred output is what the file says and what the shipped outputs hold *)
OutputFits == n > Len(M.nodes) => /\ st.s[M.outs[1]] = M.outsh[1]
                                  /\ \A i \in 1..Len(Pairs) : Len(Pairs[i].out) = Prod(M.outsh[1]) /\ Pairs[i].insh = Flat4(M.inp[1].sh)
Inferred == n > 1 => \A j \in 1..(n - 1) : M.nodes[j].outs[1] \in DOMAIN st.s
=============================================================================
