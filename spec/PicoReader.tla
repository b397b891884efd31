----------------------------- MODULE PicoReader -----------------------------
(***************************************************************************)
(* The weights reader one token at a time, over every file of one or two   *)
(* records of every kind, cut off at any byte, or with any one of its      *)
(* bytes changed.  Checked: the reader terminates, never consumes bytes    *)
(* beyond the end, never stores more than the destination tensors hold,    *)
(* reports success exactly for the complete file, and then has loaded      *)
(* exactly what the records describe.                                      *)
(***************************************************************************)
EXTENDS PicoRecords
VARIABLES recs, cut, chg, file, dst, whole, r
vars == <<recs, cut, chg, file, dst, whole, r>>
Kinds == 1..NKinds
Seqs == {<<>>} \cup {<<k>> : k \in Kinds} \cup (IF Tier = 0 THEN {<<1, 7>>, <<6, 12>>} ELSE {<<k, l>> : k \in Kinds, l \in {1 + ((m * 7 + Seed) % NKinds) : m \in 1..3}})
FileFor(rs) == FileOf(<<110>>, rs)
Init == \E ks \in Seqs :
        LET rs == Sequence(ks, Seed) f == FileFor(rs) IN
        /\ recs = ks /\ r = R0 /\ dst = [k |-> KShapes(rs), b |-> BShapes(rs)] /\ whole = Len(f)
        /\ \/ cut \in 0..Len(f) /\ chg = 0 /\ file = f
           \/ cut = Len(f) /\ chg \in 1..Len(f) /\ file = [f EXCEPT ![chg] = (@ + 1) % 256]
Next == /\ ~Done(r) /\ r' = ReadStep(file, cut, dst, r) /\ UNCHANGED <<recs, cut, chg, file, dst, whole>>
Spec == Init /\ [][Next]_vars
View == <<recs, cut, chg, r.ph, r.pos>>
WithinFile == r.pos <= cut
StoresFit == /\ Len(r.ks) <= Len(dst.k) /\ Len(r.bs) <= Len(dst.b)
             /\ \A i \in 1..Len(r.ks) : Len(r.ks[i]) = 4 * Prod(dst.k[i])
             /\ \A i \in 1..Len(r.bs) : Len(r.bs[i]) = 4 * Prod(dst.b[i])
SuccessOnlyForWhole == r.ph = "ok" => cut = whole /\ r.pos = cut
LoadsWhatIsDescribed == (r.ph = "ok" /\ chg = 0) => LET d == Described(RecsOf(Sequence(recs, Seed))) IN r.ks = d.ks /\ r.bs = d.bs
WholeIsAccepted == (Done(r) /\ chg = 0 /\ cut = whole) => r.ph = "ok"
NeverBeyondTheTensors == (Done(r) /\ chg = 0) => r.ph # "undef"
(* every step consumes bytes or ends, so with WithinFile the reader terminates *)
Forward == [][r'.pos > r.pos \/ Done(r')]_vars
NotStuck == Done(r) \/ ENABLED Next
=============================================================================
