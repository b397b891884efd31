------------------------------- MODULE GenC19 -------------------------------
(* C19: damaged, foreign and missing weights files are refused; a good file loads afterwards *)
EXTENDS PicoFileGen, PicoRecords
Good(rs, s) == FileOf(<<110, 101, 116>>, rs)
Rm(f) == [op |-> "rm", file |-> f]
Cuts(f, rs) == [op |-> "cuts", what |-> "weights", file |-> f, ks |-> KIds(rs), bs |-> BIds(rs)]
Shapes(rs) == [k |-> KDest(rs), b |-> BDest(rs)]
Defined(f, rs) == ReadWeights(f, Shapes(rs)).ph # "undef"
(* try each of the files, then a good one *)
Try(files, rs, s) ==
  Dest(rs, s) \o Flat([i \in 1..Len(files) |-> IF Defined(files[i], rs) THEN <<Put("w", files[i]), Load("w", rs)>> ELSE <<>>])
  \o Dest(rs, s + 9) \o <<Put("w", Good(rs, s)), Load("w", rs)>>
SetAt(f, i, v) == [f EXCEPT ![i] = v]
Bump(f, i, d) == SetAt(f, i, (f[i] + d) % 256)
LongFile(n) == FDmagic \o Long(n, 97)

CutCase(ks, s) == LET rs == Sequence(ks, s) IN Dest(rs, s) \o <<Put("w", Good(rs, s)), Cuts("w", rs)>> \o Dest(rs, s + 9) \o <<Load("w", rs)>>
Missing(s) == LET rs == Sequence(<<1, 7>>, s) IN
  Dest(rs, s) \o <<Load("missing", rs), Load(".", rs), Load("no/dir", rs), Put("w", <<>>), Load("w", rs), Put("w", Good(rs, s)), Rm("w"), Load("w", rs),
                   Put("w", LongFile(5)), Load("w", rs), Put("w", LongFile(99)), Load("w", rs), Put("w", LongFile(150)), Load("w", rs), Put("w", LongFile(3000)), Load("w", rs)>>
  \o Dest(rs, s + 9) \o <<Put("w", Good(rs, s)), Load("w", rs)>>
Magics == << <<70, 67, 73, 10>>, <<70, 68, 13>>, <<70, 68, 0>>, <<70, 68, 32>>, <<102, 100, 10>>, <<0, 0, 0>>, <<80, 53, 10>> >>
Magic(s) == LET rs == Sequence(<<1, 12>>, s) f == Good(rs, s) IN
  Try(Flat([i \in 1..3 |-> [j \in 1..6 |-> Bump(f, i, <<1, 255, 128, 32, 10, 7>>[j])]]) \o [i \in 1..Len(Magics) |-> Magics[i] \o SubSeq(f, 4, Len(f))]
      \o <<SubSeq(f, 2, Len(f)), <<10>> \o f, SubSeq(f, 4, Len(f))>>, rs, s)
EndFiles(ks, s) == LET rs == Sequence(ks, s) f == Good(rs, s) n == Len(f) IN
  Try(Flat([i \in 1..4 |-> [j \in 1..4 |-> Bump(f, n - 4 + i, <<1, 255, 128, 32>>[j])]]) \o <<SubSeq(f, 1, n - 1) \o <<0>>, SubSeq(f, 1, n - 4) \o <<69, 78, 68, 10>>, SubSeq(f, 1, n - 4) \o <<0, 101, 110, 100, 10>>,
        SubSeq(f, 1, n - 4) \o FDmagic \o <<10>>, SubSeq(f, 1, n - 4) \o EndMark \o EndMark>>, rs, s)
(* record types: every single-character damage of a known name, and other operators *)
TypeSeq == <<T_Conv, T_BN, T_Gemm, T_MatMul, T_Transpose, T_Add>>
Foreign == << <<>>, <<32>>, <<82, 101, 115, 104, 97, 112, 101>>, <<77, 117, 108>>, <<99, 111, 110, 118>>, <<67, 111, 110, 118, 49, 68>>, <<71, 69, 77, 77>>, <<65, 68, 68>>, <<65, 100, 100, 32>>, <<32, 65, 100, 100>>, <<65, 100, 100, 0, 120>>,
              <<101, 110, 100>>, <<67, 111, 110>>, <<67, 111, 110, 118, 84, 114, 97, 110, 115, 112, 111, 115, 101>>, Long(20, 65), Long(98, 66), Long(99, 67), Long(100, 68), Long(101, 69), Long(300, 70), Long(2000, 71),
              T_Conv \o Long(95, 32), T_BN \o T_BN, T_Gemm \o <<13>> >>
WithType(r, t) == [r EXCEPT !.r.type = t]
TypeFiles(kind, before, s) ==
  LET rs == Sequence(before \o <<kind>>, s) n == Len(rs) t == rs[n].r.type
      V(x) == Good([rs EXCEPT ![n] = WithType(@, x)], s)
      Damaged == [i \in 1..Len(t) |-> Bump(t, i, 1)] \o [i \in 1..Len(t) |-> Bump(t, i, 32)] \o [i \in 1..Len(t) |-> SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))]
                 \o <<t \o <<115>>, SubSeq(t, 1, Len(t) - 1), t \o <<13>>, t \o t>>
  IN Try([i \in 1..Len(Damaged) |-> V(Damaged[i])], rs, s)
ForeignFiles(kind, before, s) ==
  LET rs == Sequence(before \o <<kind>>, s) n == Len(rs) IN
  Try([i \in 1..Len(Foreign) |-> Good([rs EXCEPT ![n] = WithType(@, Foreign[i])], s)], rs, s)
(* size fields *)
Sizes == <<1, 255, 2, 254>>
HugeSizes == << <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<1, 0, 0, 64>>, <<255, 255, 255, 127>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<0, 1, 0, 0>> >>
SizeOffsets(rs) ==   \* the byte positions (1-based) of the size fields, in a file with the 3-character name
  LET Pre(i) == 3 + 4 + 4 + Sum([j \in 1..(i - 1) |-> Len(EncRec(rs[j].r))])
      Of(i) == LET r == rs[i].r b == Pre(i) + Len(r.name) + 1 + Len(r.type) + 1 d == 4 * Len(r.dims) IN
               [k \in 1..Len(r.dims) |-> b + 4 * (k - 1) + 1]
               \o [k \in 1..Len(r.parts) |-> b + d + Len(r.kern) + Sum([q \in 1..(k - 1) |-> 4 + Len(r.parts[q])]) + 1]
  IN <<8>> \o Flat([i \in 1..Len(rs) |-> Of(i)])
SizeFiles(ks, s) ==
  LET rs == Sequence(ks, s) f == Good(rs, s) o == SizeOffsets(rs) IN
  Try(Flat([i \in 1..Len(o) |-> [j \in 1..Len(Sizes) |-> Bump(f, o[i], Sizes[j])]
        \o [j \in 1..Len(HugeSizes) |-> SubSeq(f, 1, o[i] - 1) \o HugeSizes[j] \o SubSeq(f, o[i] + 4, Len(f))]]), rs, s)
(* the dimensions of a record exchanged, and others with the same product; the same for two records' counts *)
DimsFiles(k, j) ==
  LET s == Seed + j IN
  LET rs == <<RecDims(k, s, Rnd(s, 1, 1, 4), Rnd(s, 2, 2, 4), Rnd(s, 3, 1, 5), Rnd(s, 4, 2, 6), Rnd(s, 5, 2, 6), <<100>>), RecOf(12, s)>> f == Good(rs, s) d == rs[1].r.dims n == Len(d)
      o == SizeOffsets(rs)
      Dimd(e) == Good([rs EXCEPT ![1].r.dims = e], s)
      Pairs == SetToSeq({p \in (1..n) \X (1..n) : p[1] < p[2]})
      Swapped == [i \in 1..Len(Pairs) |-> LET p == Pairs[i] IN Dimd([d EXCEPT ![p[1]] = d[p[2]], ![p[2]] = d[p[1]]])]
      Merged == Flat([i \in 1..Len(Pairs) |-> LET p == Pairs[i] IN <<Dimd([d EXCEPT ![p[1]] = d[p[1]] * d[p[2]], ![p[2]] = 1]), Dimd([d EXCEPT ![p[2]] = d[p[1]] * d[p[2]], ![p[1]] = 1])>>])
      Zeroed == [i \in 1..n |-> Dimd([d EXCEPT ![i] = 0])]
      Turned == <<Dimd(Reverse(d)), Dimd([i \in 1..n |-> d[1 + (i % n)]])>>
      Moved == [i \in 1..(Len(o) - 1) |-> SubSeq(f, 1, o[i] - 1) \o SubSeq(f, o[i + 1], o[i + 1] + 3) \o SubSeq(f, o[i] + 4, Len(f))]
  IN Try((IF n = 0 THEN <<>> ELSE Swapped \o Merged \o Zeroed \o Turned) \o Moved, rs, s)
(* any damage: bytes changed, removed, inserted, blocks exchanged; the specification's reader decides what must happen *)
Mutate(f, s) ==
  LET n == Len(f) p == Rnd(s, 1, 1, n) v == Rnd(s, 2, 0, 255) w == Choose(s, 3, <<0, 1, 10, 255, 101, 67, 2, 4>>) IN
  CASE Rnd(s, 4, 0, 7) = 0 -> SetAt(f, p, v)
    [] Rnd(s, 4, 0, 7) = 1 -> SetAt(f, p, w)
    [] Rnd(s, 4, 0, 7) = 2 -> SubSeq(f, 1, p - 1) \o SubSeq(f, p + 1, n)
    [] Rnd(s, 4, 0, 7) = 3 -> SubSeq(f, 1, p - 1) \o <<w>> \o SubSeq(f, p, n)
    [] Rnd(s, 4, 0, 7) = 4 -> SubSeq(f, 1, p - 1) \o SubSeq(f, MinOf(p + 4, n + 1), n)
    [] Rnd(s, 4, 0, 7) = 5 -> SubSeq(f, 1, p - 1) \o <<w, 0, 0, 0>> \o SubSeq(f, p, n)
    [] Rnd(s, 4, 0, 7) = 6 -> SubSeq(f, 1, p - 1) \o SubSeq(f, Rnd(s, 5, 1, n), n)
    [] OTHER -> Bump(f, p, 1)
MutateFiles(s) ==
  LET rs == Sequence([i \in 1..Rnd(s, 3, 1, 4) |-> Rnd(s, 10 + i, 1, NKinds)], s) f == Good(rs, s) IN
  Try([j \in 1..25 |-> IF j % 3 = 0 THEN Mutate(Mutate(f, s + 100 * j), s + 50 + j) ELSE Mutate(f, s + 100 * j)], rs, s)

NMut == IF Tier = 0 THEN 120 ELSE 2000
GKeys == {<<"missing">>, <<"magic">>} \cup {<<"cut1", k>> : k \in 1..NKinds} \cup {<<"cut2", k>> : k \in 1..NKinds} \cup {<<"end", k>> : k \in 1..NKinds} \cup {<<"end0">>}
         \cup {<<"type", k>> : k \in 1..NKinds} \cup {<<"foreign", k>> : k \in 1..NKinds} \cup {<<"size", k>> : k \in 1..NKinds} \cup {<<"dims", k>> : k \in 1..NKinds} \cup {<<"mut", k>> : k \in 1..NMut}
GCases(ky) ==
  CASE ky[1] = "missing" -> {Missing(Seed)}
    [] ky[1] = "magic" -> {Magic(Seed)}
    [] ky[1] = "cut1" -> {CutCase(<<ky[2]>>, Seed + ky[2])}
    [] ky[1] = "cut2" -> {CutCase(<<ky[2], 1 + ((ky[2] * 5 + Seed + j) % NKinds)>>, Seed + ky[2] + j) : j \in 1..(IF Tier = 0 THEN 2 ELSE 17)}
    [] ky[1] = "end0" -> {EndFiles(<<>>, Seed)}
    [] ky[1] = "end" -> {EndFiles(<<ky[2]>>, Seed)}
    [] ky[1] = "type" -> {TypeFiles(ky[2], <<>>, Seed), TypeFiles(ky[2], <<2 + (ky[2] % 12)>>, Seed)}
    [] ky[1] = "foreign" -> {ForeignFiles(ky[2], <<>>, Seed), ForeignFiles(ky[2], <<1, 7>>, Seed)}
    [] ky[1] = "size" -> {SizeFiles(<<ky[2]>>, Seed + j) : j \in 1..2} \cup {SizeFiles(<<ky[2], 1 + ((ky[2] * 7 + Seed) % NKinds)>>, Seed)}
    [] ky[1] = "dims" -> {DimsFiles(ky[2], 31 * j) : j \in 1..(IF Tier = 0 THEN 6 ELSE 60)}
    [] ky[1] = "mut" -> {MutateFiles(Seed * 10007 + 13 * ky[2])}
(* of the structured damages, only those that change no more than a name or a value may load *)
Structured == {"missing", "magic", "end0", "end", "type", "foreign"}
Refused == (Len(log) > 0 /\ key[1] \in Structured /\ acts[Len(log)].op = "weights" /\ Len(log) < Len(acts)) =>
             (~out.ok \/ (key[1] \in {"end", "end0"} /\ SubSeq(fs["w"], Len(fs["w"]) - 7, Len(fs["w"])) = EndMark \o EndMark))
=============================================================================
