--------------------------- MODULE PicoModelTools ---------------------------
(***************************************************************************)
(* util/check_onnx_model.py and util/save_intermediate_outputs.py.         *)
(*   rec   recorded tensors beside a model: name -> [sh, ty, v]; elements  *)
(*         are integers, times 2^-15 for the floating types ("f", "d"),    *)
(*         where NaN, Inf and -Inf stand for values that are no numbers    *)
(*   txt   the text files written: name -> values                          *)
(* A check runs the model once, on all recorded inputs in the order of     *)
(* their numbers, and succeeds exactly when what it returns agrees with    *)
(* the recorded outputs to four decimals; a save runs it on ones.          *)
(***************************************************************************)
EXTENDS PicoTensor, Json
CONSTANTS Keys, Cases(_), Emit

InN(i) == "input_" \o ToString(i)
OutN(i) == "output_" \o ToString(i)
VARIABLES key, acts, pc, rec, txt, log
vars == <<key, acts, pc, rec, txt, log>>
EmptyF == [x \in {} |-> 0]
Count(N(_)) == Cardinality({i \in 0..40 : N(i) \in DOMAIN rec})
AbsI(n) == IF n < 0 THEN 0 - n ELSE n
NaN == 1000000000
Inf == 900000000
Apart(a, b) == [i \in 1..Len(a.v) |-> AbsI(a.v[i] - b.v[i])]
(* 10^-4 is about 3.3 units: one unit is no difference in the fourth decimal, eight are *)
Compare(a, b) ==
  IF Prod(a.sh) # Prod(b.sh) THEN "differ"
  ELSE IF \E i \in 1..Len(a.v) : Apart(a, b)[i] >= 8 THEN "differ"
  ELSE IF a.sh # b.sh \/ \E i \in 1..Len(a.v) : Apart(a, b)[i] > 1 \/ (a.v[i] = NaN) THEN "may"
  ELSE "agree"
Check(ret) ==
  LET n == Count(OutN)
      each == [i \in 1..n |-> IF i <= Len(ret) THEN Compare(rec[OutN(i - 1)], ret[i]) ELSE "may"]
  IN IF n = 0 THEN "any" ELSE IF \E i \in 1..n : each[i] = "differ" THEN "fail" ELSE IF \E i \in 1..n : each[i] = "may" THEN "any" ELSE "ok"
Inputs == [i \in 1..Count(InN) |-> rec[InN(i - 1)]]

(* names: [n, safe]: safe is n with slashes, dots and colons replaced; model: [dir, stem, rest] *)
File(a, i) == a.stem \o "_" \o a.names[i].safe \o ".tf"
Ones(sh) == [sh |-> sh, ty |-> "f", v |-> [i \in 1..Prod(sh) |-> 32768]]

Init == key \in Keys /\ acts = <<>> /\ pc = 0 /\ rec = EmptyF /\ txt = EmptyF /\ log = <<>>
Pick == /\ pc = 0 /\ \E c \in Cases(key) : acts' = c
        /\ pc' = 1 /\ UNCHANGED <<key, rec, txt, log>>
Now(o) == pc >= 1 /\ pc <= Len(acts) /\ acts[pc].op = o
Done(st, ran) == /\ log' = Append(log, [st |-> st, ran |-> ran, txt |-> txt']) /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
Put == /\ Now("rec") /\ rec' = (acts[pc].name :> acts[pc].t) @@ rec /\ UNCHANGED txt /\ Done("ok", <<>>)
Del == /\ Now("unrec") /\ rec' = [x \in DOMAIN rec \ {acts[pc].name} |-> rec[x]] /\ UNCHANGED txt /\ Done("ok", <<>>)
CheckM == /\ Now("check") /\ UNCHANGED <<rec, txt>> /\ Done(Check(acts[pc].ret), Inputs)
Save == /\ Now("save") /\ UNCHANGED rec
        /\ LET a == acts[pc] IN
           /\ txt' = [f \in {File(a, i) : i \in 1..Len(a.names)} |-> a.vals[CHOOSE i \in 1..Len(a.names) : File(a, i) = f].v] @@ txt
           /\ Done("ok", <<Ones(a.sh)>>)
Finish == /\ pc >= 1 /\ pc = Len(acts) + 1
          /\ Emit => PrintT(ToJson([key |-> key, acts |-> acts, log |-> log]))
          /\ pc' = -1 /\ acts' = <<>> /\ rec' = EmptyF /\ txt' = EmptyF /\ log' = <<>> /\ UNCHANGED key
Next == Pick \/ Put \/ Del \/ CheckM \/ Save \/ Finish
Spec == Init /\ [][Next]_vars
View == <<key, acts, pc>>

(* ---- properties of the model ---- *)
TypeOK == \A x \in DOMAIN rec : Len(rec[x].v) = Prod(rec[x].sh)
(* tensors are numbered from 0 without gaps whenever a check is run *)
Numbered == Now("check") => \A x \in DOMAIN rec : \E i \in 0..40 : (x = InN(i) /\ i < Count(InN)) \/ (x = OutN(i) /\ i < Count(OutN))
DistinctFiles == Now("save") => \A i, j \in 1..Len(acts[pc].names) : i # j => File(acts[pc], i) # File(acts[pc], j)
(* a model always agrees with what it returned, where that is numbers, and that is symmetric *)
Reflexive == Now("check") => LET r == acts[pc].ret IN \A i \in 1..Len(r) : ((\E k \in 1..Len(r[i].v) : r[i].v[k] = NaN) \/ Compare(r[i], r[i]) = "agree") /\ (i <= Count(OutN) => Compare(r[i], rec[OutN(i - 1)]) = Compare(rec[OutN(i - 1)], r[i]))
(* a save leaves the records and all other files alone *)
OnlyNamed == [][Now("save") => rec' = rec /\ \A f \in DOMAIN txt : f \in DOMAIN txt' /\ (txt'[f] # txt[f] => \E i \in 1..Len(acts[pc].names) : File(acts[pc], i) = f)]_vars
=============================================================================
