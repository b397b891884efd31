---------------------------- MODULE PicoFileGen -----------------------------
(* Steps the file interface (FDo of PicoFiles) through scenarios and prints
   every complete behaviour as JSON; the counterpart of PicoGen.              *)
EXTENDS PicoFiles, Json, IOUtils
CONSTANTS Keys, Cases(_), Emit
VARIABLES key, acts, pc, fs, ts, log, out
vars == <<key, acts, pc, fs, ts, log, out>>
EmptyF == [x \in {} |-> 0]
Init == /\ key \in Keys
        /\ acts = <<>> /\ pc = 0 /\ fs = EmptyF /\ ts = EmptyF /\ log = <<>> /\ out = [k |-> "ok"]
Pick == /\ pc = 0 /\ \E c \in Cases(key) : acts' = c
        /\ pc' = 1 /\ UNCHANGED <<key, fs, ts, log, out>>
Step == /\ pc > 0 /\ pc <= Len(acts)
        /\ LET r == FDo(fs, ts, acts[pc]) IN
           /\ fs' = r.fs /\ ts' = r.ts /\ out' = r.out
           /\ log' = Append(log, [o |-> r.out, w |-> [id \in r.wr |-> r.ts[id].b], u |-> SetToSeq(r.un)])
        /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
Finish == /\ pc > 0 /\ pc = Len(acts) + 1
          /\ Emit => PrintT(ToJson([key |-> key, acts |-> acts, log |-> log]))
          /\ pc' = -1 /\ fs' = EmptyF /\ ts' = EmptyF /\ log' = <<>> /\ out' = [k |-> "ok"] /\ acts' = <<>> /\ UNCHANGED key
Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
View == <<key, acts, pc>>

TypeOK == \A id \in DOMAIN ts : ts[id].b = <<>> \/ Len(ts[id].b) = 4 * Prod(ts[id].sh)
NoPrefixAccepted == out.k = "cuts" => out.accepted = 0
(* only the destinations of a load change, and a failed load never makes anything but them unspecified *)
FrameF == [][(pc > 0 /\ pc <= Len(acts) /\ pc' > pc) =>
              \A id \in DOMAIN ts : ts'[id] = ts[id]
                 \/ (acts[pc].op = "tnew" /\ acts[pc].id = id)
                 \/ (acts[pc].op = "weights" /\ id \in Range_(acts[pc].ks) \cup Range_(acts[pc].bs))
                 \/ (acts[pc].op \in {"refin", "refout"} /\ acts[pc].id = id) \/ acts[pc].op = "cuts"]_vars
=============================================================================
