---------------------------- MODULE PicoPrograms ----------------------------
(***************************************************************************)
(* The example programs, each built beside the generated network of its    *)
(* name.  The MNIST programs (lenet, mnist_mlp, mnist_simple_perceptron)   *)
(* run the network on one image of the data set after the other and count  *)
(* how often each digit was taken for each; the ImageNet programs          *)
(* (alexnet, vgg16, vgg19) subtract the channel means from a picture, run  *)
(* the network and name the ten largest outputs one by one.                *)
(*                                                                         *)
(* Images are given by formulas: pixel p of image i of a data set z is     *)
(* Pixel(z, i, p); a picture is a grid of 4 x 4 plain fields per channel.  *)
(* What the network makes of an image is Value(m, z, i, c) for a class c,  *)
(* which FirstImage holds to the model's graph.                            *)
(***************************************************************************)
EXTENDS PicoModels
NoCases(ky) == {}
CONSTANTS Jobs
VARIABLES job, st, nn, rn, img, conf, top, outc
pvars == <<job, st, nn, rn, img, conf, top, outc>>

Digits == 10
Limit == 1000          \* the programs look at the first thousand images
Classes == 1000
Mnist(p) == p \in {"lenet", "mnist_mlp", "mnist_simple_perceptron"}

(* ---- what a network of one of these kinds makes of an image: gains[c] times what it reads at place[c] ---- *)
Pixel(z, im, p) == ((z[1] * im) + (z[2] * p) + (z[3] * ((im * p) % 251)) + ((im \div 7) * (p % 5))) % z[4]
Read(kind, z, im, p) ==
  IF kind # "max" THEN Pixel(z, im, p)
  ELSE LET y == 2 * (p \div 14) x == 2 * (p % 14) AtP(a, b) == Pixel(z, im, (28 * a) + b) IN      \* 2 x 2 windows
       MaxOf(MaxOf(AtP(y, x), AtP(y, x + 1)), MaxOf(AtP(y + 1, x), AtP(y + 1, x + 1)))
Value(a, z, im, c) == LET v == a.gain[c] * Read(a.kind, z, im, a.place[c]) IN IF a.kind = "relu" THEN MaxOf(v, 0) ELSE v
Largest(g) == LET f == TLCEval(g) best == FoldSet(LAMBDA c, b : IF f[c] > f[b] \/ (f[c] = f[b] /\ c < b) THEN c ELSE b, CHOOSE c \in DOMAIN f : TRUE, DOMAIN f) IN best
Prediction(a, z, im) == Largest(TLCEval([c \in 1..Digits |-> Value(a, z, im, c)])) - 1
(* labels: a formula, or what the network says for all but every t-th image *)
Label(a, run, im) == LET l == ((run.y[1] * im) + (run.y[2] * (im \div 3)) + run.y[3]) % Digits IN
                     IF run.y[4] > 0 /\ im % run.y[4] # 0 THEN Prediction(a, run.z, im) ELSE l

(* ---- pictures: fields[c * 16 + f] of channel c (blue, green, red), means in units of 1 / U ---- *)
U == 4096
Field(a, run, f) ==
  LET c == a.perm[(f \div 16) + 1] v == (U * run.fields[((c - 1) * 16) + (f % 16) + 1]) - run.means[c] IN
  IF a.kind = "conv" THEN MaxOf(v, 0) ELSE v
Output(a, run, c) == (a.gain[c] * Field(a, run, a.place[c])) + (U * a.bias[c])

(* ---- the machine ---- *)
Todo == job.runs
Net == job.m
Now_ == Todo[rn]
PInit == job \in Jobs /\ st = [s |-> Shapes0(job.m), c |-> Consts0(job.m)] /\ nn = 1 /\ rn = 0 /\ img = 0 /\ conf = <<>> /\ top = <<>> /\ outc = <<>>
          /\ key = 0 /\ sc = NoSc /\ pc = 0 /\ inst = EmptyF /\ env = EmptyF /\ nx = 0 /\ log = <<>> /\ tree = EmptyF
Infer == /\ rn = 0 /\ nn <= Len(Net.nodes)
         /\ LET nd == Net.nodes[nn] o == nd.outs[1] IN
            st' = [s |-> (o :> NodeShape(nd, st.s, st.c)) @@ st.s,
                   c |-> IF IsConstNode(nd, st.c) THEN (o :> NodeValue(nd, st.c)) @@ st.c ELSE st.c]
         /\ nn' = nn + 1 /\ UNCHANGED <<job, rn, img, conf, top, outc>> /\ UNCHANGED vars
Built == /\ rn = 0 /\ nn = Len(Net.nodes) + 1 /\ rn' = 1 /\ UNCHANGED <<job, st, nn, img, conf, top, outc>> /\ UNCHANGED vars
Going == rn >= 1 /\ rn <= Len(Todo)
Images == MinOf(Limit, Now_.n)
(* a program that cannot have what it needs ends with a failure and says nothing *)
Refuses == Now_.files \notin {"ok", "longpaths"}
Next_(res) == /\ outc' = Append(outc, res) /\ rn' = rn + 1 /\ img' = 0 /\ conf' = <<>> /\ top' = <<>>
Fail == /\ Going /\ Refuses
        /\ Next_([st |-> "fail", n |-> 0, right |-> 0, conf |-> <<>>, top |-> <<>>, labels |-> IF Mnist(job.prog) THEN [k \in 1..MinOf(Now_.nl, 40) |-> k % Digits] ELSE <<>>])
        /\ UNCHANGED <<job, st, nn>> /\ UNCHANGED vars
Begin == /\ Going /\ ~Refuses /\ conf = <<>> /\ Mnist(job.prog)
         /\ conf' = [p \in 1..(Digits * Digits) |-> 0]
         /\ UNCHANGED <<job, st, nn, rn, img, top, outc>> /\ UNCHANGED vars
Classify == /\ Going /\ conf # <<>> /\ img < Images
            /\ LET p == Prediction(job, Now_.z, img) l == Label(job, Now_, img) IN conf' = [conf EXCEPT ![(Digits * p) + l + 1] = @ + 1]
            /\ img' = img + 1 /\ UNCHANGED <<job, st, nn, rn, top, outc>> /\ UNCHANGED vars
Right == Sum([d \in 1..Digits |-> conf[(Digits * (d - 1)) + d]])
Report == /\ Going /\ conf # <<>> /\ img = Images
          /\ Next_([st |-> "ok", n |-> Images, right |-> Right, conf |-> conf, top |-> <<>>, labels |-> [k \in 1..Now_.nl |-> Label(job, Now_, k - 1)]])
          /\ UNCHANGED <<job, st, nn>> /\ UNCHANGED vars
(* the next largest output that has not been named; the first of equals *)
Following(a, run, named) ==
  LET o == [c \in 1..Classes |-> Output(a, run, c)]
      c == Largest([d \in 1..Classes \ {named[k].c : k \in 1..Len(named)} |-> o[d]])
  IN [c |-> c, v |-> o[c]]
Name == /\ Going /\ ~Refuses /\ ~Mnist(job.prog) /\ Len(top) < 10
        /\ top' = Append(top, Following(job, Now_, top))
        /\ UNCHANGED <<job, st, nn, rn, img, conf, outc>> /\ UNCHANGED vars
Named == /\ Going /\ ~Refuses /\ Len(top) = 10
         /\ Next_([st |-> "ok", n |-> 0, right |-> 0, conf |-> <<>>, top |-> [k \in 1..10 |-> [v |-> top[k].v, label |-> Now_.stem \o ToString(top[k].c) \o Now_.tail]], labels |-> <<>>])
         /\ UNCHANGED <<job, st, nn>> /\ UNCHANGED vars
PFinish == /\ rn = Len(Todo) + 1
           /\ Emit => PrintT(ToJson([model |-> Net, verdict |-> Verdict(Net, st), shapes |-> st.s, consts |-> DOMAIN st.c, others |-> <<>>, prog |-> job.prog, runs |-> Todo, out |-> outc,
                        hist |-> <<[op |-> "import", i |-> 0, dir |-> "", stem |-> Net.nm, ext |-> ".onnx", batch |-> "one"]>>]))
           /\ rn' = -1 /\ UNCHANGED <<job, st, nn, img, conf, top, outc>> /\ UNCHANGED vars
PNext == Infer \/ Built \/ Fail \/ Begin \/ Classify \/ Report \/ Name \/ Named \/ PFinish
PSpec == PInit /\ [][PNext]_<<pvars, vars>>
PView == <<job.prog, job.kind, job.id, nn, rn, img, Len(top), Len(conf)>>

(* ---- properties of the model ---- *)
PTypeOK == nn \in 1..20 /\ img \in 0..Limit /\ rn \in -1..(Len(Todo) + 1)
Supported == rn # 0 => Verdict(Net, st) = "accept"
(* every image is counted once, in the column of its label *)
Counted == conf # <<>> => /\ Sum(conf) = img
                          /\ img = Images => \A l \in 0..(Digits - 1) : Sum([d \in 1..Digits |-> conf[(Digits * (d - 1)) + l + 1]]) = Cardinality({k \in 0..(img - 1) : Label(job, Now_, k) = l})
(* the outputs are named in descending order, each once, and none that is left is larger *)
Descending == \A k \in 2..Len(top) : top[k].v <= top[k - 1].v /\ (top[k].v = top[k - 1].v => top[k - 1].c < top[k].c)
Once == \A j, k \in 1..Len(top) : j # k => top[j].c # top[k].c
(* the values are what the graph makes of the first image: pictures have plain fields, so that a pixel of
   each stands for the field where the graph only takes maxima of them *)
RECURSIVE Graph(_, _)
Graph(e, k) == IF k > Len(Net.nodes) THEN e ELSE LET nd == Net.nodes[k] IN Graph((nd.outs[1] :> TLCEval(NodeValue(nd, e))) @@ e, k + 1)
FirstImage ==
  (Going /\ ~Refuses /\ Mnist(job.prog) /\ img = 0 /\ conf # <<>> /\ rn = 1) =>
    LET x == Mk(Net.inp[1].sh, TLCEval([p \in 1..784 |-> Pixel(Now_.z, 0, p - 1)])) o == Graph((Net.inp[1].id :> x) @@ Consts0(Net), 1)[Net.outs[1]] IN
    \A c \in 1..Digits : o.d[c] = Value(job, Now_.z, 0, c) + job.common
=============================================================================
