------------------------------ MODULE PicoGen -------------------------------
(***************************************************************************)
(* Steps the state machine of PicoRuntime through scenarios.  A generator  *)
(* module defines                                                          *)
(*    Keys         a finite set (partition of the configuration space)     *)
(*    Cases(key)   the set of scenarios (action sequences) of a partition  *)
(* Every complete behaviour is printed as one JSON line: the actions, and  *)
(* after each action its outcome and the contents of the tensors written.  *)
(***************************************************************************)
EXTENDS PicoRuntime, Json, IOUtils

CONSTANTS Keys, Cases(_), Emit

VARIABLES key, acts, pc, st, ly, log, out
vars == <<key, acts, pc, st, ly, log, out>>

EmptyF == [x \in {} |-> 0]

Init == /\ key \in Keys
        /\ acts = <<>> /\ pc = 0 /\ st = EmptyF /\ ly = EmptyF /\ log = <<>> /\ out = Ok

Pick == /\ pc = 0
        /\ \E c \in Cases(key) : acts' = c
        /\ pc' = 1
        /\ UNCHANGED <<key, st, ly, log, out>>

Step == /\ pc > 0 /\ pc <= Len(acts) /\ out.k # "die"
        /\ LET r == Do(st, ly, acts[pc]) IN
           /\ st' = r.st /\ ly' = r.ly /\ out' = r.out
           /\ log' = Append(log, [o |-> r.out, w |-> [id \in r.wr |-> IF acts[pc].op = "new" THEN 0 ELSE r.st[id]]])
        /\ pc' = pc + 1
        /\ UNCHANGED <<key, acts>>

Finished == pc > 0 /\ (pc = Len(acts) + 1 \/ out.k = "die")
Finish == /\ Finished
          /\ Emit => PrintT(ToJson([key |-> key, acts |-> SubSeq(acts, 1, Len(log)), log |-> log]))
          /\ pc' = -1 /\ st' = EmptyF /\ ly' = EmptyF /\ log' = <<>> /\ out' = Ok /\ acts' = <<>>
          /\ UNCHANGED key

Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

(* the state is a function of the scenario and the position in it *)
View == <<key, acts, pc>>

(* ---- properties of the model ---- *)
TypeOK == \A id \in DOMAIN st : IsTensor(st[id])
RequestsWellFormed == (pc > 0 /\ pc <= Len(acts) /\ out.k # "die") => WellFormed(st, ly, acts[pc])
(* an operation changes nothing but its declared output *)
Frame == [][(pc > 0 /\ pc <= Len(acts) /\ pc' > pc) =>
              \A id \in DOMAIN st \ MayWrite(acts[pc]) : id \in DOMAIN st' /\ st'[id] = st[id]]_vars
(* contents that floats represent exactly *)
Exact == \A id \in DOMAIN st : (st[id].t = 0 /\ st[id].q = <<>>) => \A i \in 1..Len(st[id].d) :
            st[id].d[i] < 16777217 /\ st[id].d[i] > -16777217
=============================================================================
