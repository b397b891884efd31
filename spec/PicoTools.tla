----------------------------- MODULE PicoTools ------------------------------
(***************************************************************************)
(* The tools that write reference data (util/parse_onnx_reference_files.py *)
(* and util/generate_reference_data.py), as transitions of a directory,    *)
(* and the library reading what they wrote.                                *)
(*   fs  maps names to [k, ...]:                                           *)
(*       "pb"   a TensorProto file: [sh, ty, b]; b: the values as floats   *)
(*       "data" a reference data file: its bytes b                         *)
(*       "any"  whatever a tool may have left there                        *)
(***************************************************************************)
EXTENDS PicoFiles, Json, IOUtils
CONSTANTS Keys, Cases(_), Emit

(* the IEEE single of an integer |v| < 2^24 *)
RECURSIVE Lg2(_)
Lg2(n) == IF n = 1 THEN 0 ELSE 1 + Lg2(n \div 2)
F32(v) ==
  IF v = 0 THEN <<0, 0, 0, 0>>
  ELSE LET a == IF v < 0 THEN 0 - v ELSE v e == Lg2(a) man == (a * Pow2(23 - e)) - 8388608 ex == e + 127 IN
       <<man % 256, (man \div 256) % 256, ((ex % 2) * 128) + (man \div 65536), (IF v < 0 THEN 128 ELSE 0) + (ex \div 2)>>

InName(i)  == "input_" \o ToString(i)
OutName(i) == "output_" \o ToString(i)
Pb(fs, n) == (n \o ".pb") \in DOMAIN fs
(* tensors 0 .. n-1 of a kind *)
Count(fs, N(_)) == Cardinality({i \in 0..30 : Pb(fs, N(i))})
InOk(t)  == Len(t.sh) = 4 /\ t.sh[1] = 1
OutOk(t) == Len(t.sh) = 2 /\ t.sh[1] = 1
Data(b) == [k |-> "data", b |-> b]
AnyF == [k |-> "any"]
InFile(t) == Data(EncIn(t.sh[2], t.sh[3], t.sh[4], t.b))
OutFile(t) == Data(EncOut(t.sh[2], t.b))

(* one file per tensor, in order, up to the first of a shape that is not supported: that one gets
   no file (a file from before is not looked at), and those behind it may or may not have one *)
Files(fs, N(_), n, Ok(_), Enc(_)) ==
  LET T(i) == fs[N(i) \o ".pb"]
      bad == {i \in 0..(n - 1) : ~Ok(T(i))}
      first == IF bad = {} THEN n ELSE Min(bad)
      nm(i) == N(i) \o ".data"
  IN [r |-> [x \in {nm(i) : i \in 0..(n - 1)} |-> LET i == CHOOSE i \in 0..(n - 1) : nm(i) = x IN
               IF i < first THEN Enc(T(i)) ELSE IF ~Ok(T(i)) /\ x \notin DOMAIN fs THEN [k |-> "none"] ELSE AnyF],
      ok |-> bad = {}]
Apply_(fs, r) == [x \in (DOMAIN fs \cup DOMAIN r) \ {y \in DOMAIN r : r[y].k = "none"} |-> IF x \in DOMAIN r THEN r[x] ELSE fs[x]]
Parse(fs) ==
  LET ni == Count(fs, InName) no == Count(fs, OutName)
      a == Files(fs, InName, ni, InOk, InFile)
      b == Files(fs, OutName, no, OutOk, OutFile)
      anyb == [x \in DOMAIN b.r |-> IF b.r[x].k = "none" THEN b.r[x] ELSE AnyF]
  IN IF ni = 0 THEN [fs |-> fs, st |-> "fail"]
     ELSE IF ~a.ok THEN [fs |-> Apply_(Apply_(fs, a.r), anyb), st |-> "any"]
     ELSE IF no = 0 THEN [fs |-> Apply_(fs, a.r), st |-> "fail"]
     ELSE [fs |-> Apply_(Apply_(fs, a.r), b.r), st |-> IF b.ok THEN "ok" ELSE "any"]

(* generate_reference_data.py.  a: [kind, media, sh, lo, hi, seed, fdir, fstem, fext, mdir, mstem, mext, mw, osh, ob]
   mw: width of the picture when it is not that of sh;
   media: the integers the media file holds, in its order *)
Types_ == {"wav", "jpeg", "pgm", "random"}
GenOk(a) == /\ a.kind \in Types_ /\ a.sh[1] = 1
            /\ CASE a.kind = "random" -> Len(a.sh) \in {2, 3, 4} [] a.kind = "wav" -> Len(a.sh) \in {3, 4} [] OTHER -> Len(a.sh) = 4
Chw(sh) == CASE Len(sh) = 4 -> <<sh[2], sh[3], sh[4]>> [] Len(sh) = 3 -> <<sh[2], 1, sh[3]>> [] Len(sh) = 2 -> <<1, 1, sh[2]>>
Stem(a) == a.mdir \o (IF a.kind = "random" THEN "random" ELSE a.fstem) \o "_" \o a.mstem
(* what the written values are: the media's integers over a divisor, or uniform *)
Rule(a) == CASE a.kind = "random" -> [k |-> "uniform", lo |-> a.lo, hi |-> a.hi, num |-> <<>>, den |-> 1]
             [] a.kind = "wav" -> [k |-> "ratio", lo |-> 0, hi |-> 0, num |-> a.media, den |-> SeqMaxF(a.media)]
             [] a.kind = "pgm" -> [k |-> "ratio", lo |-> 0, hi |-> 0, num |-> a.media, den |-> 255]
             [] a.kind = "jpeg" -> [k |-> IF a.sh[2] = 1 THEN "ratio" ELSE "bag", lo |-> 0, hi |-> 0, num |-> a.media, den |-> 1]
Generate(fs, a) ==
  LET i == Stem(a) \o "_input.data" o == Stem(a) \o "_output.data" IN
  IF ~GenOk(a) THEN [fs |-> fs, st |-> "fail"]
  ELSE [fs |-> (i :> [k |-> "gen", chw |-> Chw(a.sh), sh |-> a.sh, rule |-> Rule(a)]) @@ (o :> Data(EncOut(a.osh[2], a.ob))) @@ fs, st |-> "ok"]

VARIABLES key, acts, pc, fs, st, log
vars == <<key, acts, pc, fs, st, log>>
EmptyF == [x \in {} |-> 0]
Init == key \in Keys /\ acts = <<>> /\ pc = 0 /\ fs = EmptyF /\ st = "ok" /\ log = <<>>
Pick == /\ pc = 0 /\ \E c \in Cases(key) : acts' = c
        /\ pc' = 1 /\ UNCHANGED <<key, fs, st, log>>
Out == {n \in DOMAIN fs' : fs'[n].k # "pb"}
Logs == log' = Append(log, [st |-> st', files |-> [n \in Out |-> fs'[n]]])
At_ == pc >= 1 /\ pc <= Len(acts)
PutPb == /\ At_ /\ acts[pc].op = "pb" /\ fs' = (acts[pc].file :> [k |-> "pb", sh |-> acts[pc].sh, b |-> acts[pc].b]) @@ fs /\ st' = "ok"
         /\ Logs /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
RemoveF == /\ At_ /\ acts[pc].op = "rm" /\ fs' = [n \in DOMAIN fs \ {acts[pc].file} |-> fs[n]] /\ st' = "ok"
          /\ Logs /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
RunParse == /\ At_ /\ acts[pc].op = "parse" /\ LET r == Parse(fs) IN fs' = r.fs /\ st' = r.st
            /\ Logs /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
RunGen == /\ At_ /\ acts[pc].op = "gen" /\ LET r == Generate(fs, acts[pc]) IN fs' = r.fs /\ st' = r.st
          /\ Logs /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
Finish == /\ pc >= 1 /\ pc = Len(acts) + 1
          /\ Emit => PrintT(ToJson([key |-> key, acts |-> acts, log |-> log]))
          /\ pc' = -1 /\ acts' = <<>> /\ fs' = EmptyF /\ st' = "ok" /\ log' = <<>> /\ UNCHANGED key
Next == Pick \/ PutPb \/ RemoveF \/ RunParse \/ RunGen \/ Finish
Spec == Init /\ [][Next]_vars
View == <<key, acts, pc>>

(* ---- properties of the model ---- *)
TypeOK == \A n \in DOMAIN fs : fs[n].k = "pb" => Len(fs[n].b) = 4 * Prod(fs[n].sh)
(* what a tool writes, the library's reader (PicoFiles) takes in, with exactly these values *)
ReadBack == (At_ /\ pc > 1 /\ acts[pc - 1].op = "parse") =>
  \A i \in 0..30 : /\ (Pb(fs, InName(i)) /\ (InName(i) \o ".data") \in DOMAIN fs /\ fs[InName(i) \o ".data"].k = "data") =>
                       (LET t == fs[InName(i) \o ".pb"] r == RefIn(fs[InName(i) \o ".data"].b, t.sh) IN r.ok /\ r.b = t.b)
                   /\ (Pb(fs, OutName(i)) /\ (OutName(i) \o ".data") \in DOMAIN fs /\ fs[OutName(i) \o ".data"].k = "data") =>
                       (LET t == fs[OutName(i) \o ".pb"] r == RefOut(fs[OutName(i) \o ".data"].b, t.sh) IN r.ok /\ r.b = t.b)
(* a tool writes reference data and nothing else *)
OnlyData == [][(At_ /\ acts[pc].op \in {"parse", "gen"} /\ pc' > pc) =>
               /\ DOMAIN fs \subseteq DOMAIN fs'
               /\ \A n \in DOMAIN fs : fs[n].k = "pb" => fs'[n] = fs[n]
               /\ (acts[pc].op = "gen" => Cardinality({n \in DOMAIN fs' : n \notin DOMAIN fs \/ fs'[n] # fs[n]}) <= 2)]_vars
=============================================================================
