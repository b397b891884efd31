------------------------------- MODULE GenC18 -------------------------------
(* C18: every weights file in the documented format loads exactly *)
EXTENDS PicoFileGen, PicoRecords
One_(ks, s) == LET rs == Sequence(ks, s) IN
  Dest(rs, s) \o <<Put("w", FileOf(Choose(s, 1, Names), rs)), Load("w", rs)>>
(* several files, one after another, into the same tensors *)
Twice(ks, s) == LET rs == Sequence(ks, s) r2 == Revalue(rs, s + 50) IN
  Dest(rs, s) \o <<Put("w", FileOf(Choose(s, 1, Names), rs)), Load("w", rs), Put("v", FileOf(Choose(s, 2, Names), r2)), Load("v", rs), Load("v", rs), Load("w", rs)>>
NRand == IF Tier = 0 THEN 700 ELSE 6000
RandKinds(s) == [i \in 1..Rnd(s, 3, 3, 9) |-> Rnd(s, 10 + i, 1, NKinds)]
NameCase(k) == LET rs == <<[RecOf(1, Seed + k) EXCEPT !.r.name = Names[k]], [RecOf(12, Seed + k) EXCEPT !.r.name = Names[k]]>> IN
  Dest(rs, k) \o <<Put("w", FileOf(Names[k], rs)), Load("w", rs)>>
BigCase == LET rs == BigRecs(Seed) IN Dest(rs, 1) \o <<Put("w", FileOf(<<98>>, rs)), Load("w", rs)>>
LargeCase(r) == Dest(<<r>>, 3) \o <<Put("w", FileOf(<<98>>, <<r>>)), Load("w", <<r>>)>>
(* counts beyond two bytes *)
Beyond(j) == LET D(k, o, i, h, w, n) == RecDims(k, Seed, o, i, h, w, n, <<76>>) IN
  CASE j = 1 -> D(2, 1, 1, 33, 1987, 1) [] j = 2 -> D(2, 65537, 1, 1, 1, 1) [] j = 3 -> D(12, 1, 1, 1, 1, 65543) [] j = 4 -> D(10, 1, 1, 3, 22000, 1)
(* one after another: many records in one file *)
ManyCase(n) == LET rs == [i \in 1..n |-> RecDims(<<12, 4, 2, 7, 5, 13, 10>>[1 + (i % 7)], Seed + i, 1, 1, 1, 1, 1, <<48 + (i % 10)>>)] IN
  Dest(rs, 1) \o <<Put("w", FileOf(<<98>>, rs)), Load("w", rs)>>
(* files as long as buffers are *)
SizedCase(total, d) == LET rs == <<RecDims(12, Seed + d, 1, 1, 1, 1, (total - 96) \div 4, <<76>>)>> n == Len(FileOf(<<>>, rs)) IN
  Dest(rs, 1) \o <<Put("w", FileOf(Long((total - n) + d, 97), rs)), Load("w", rs)>>
GKeys == {<<"sized", t, d>> : t \in {512, 1024, 4096, 8192}, d \in {-1, 0, 1}} \cup {<<"e">>, <<"big">>} \cup {<<"beyond", j>> : j \in 1..4} \cup {<<"l", k, j>> : k \in 1..NKinds, j \in 1..10} \cup {<<"many", n>> : n \in {31, 64, 130, 300}} \cup {<<"1", k>> : k \in 1..NKinds} \cup {<<"2", k>> : k \in 1..NKinds} \cup {<<"n", k>> : k \in 1..Len(Names)}
         \cup {<<"r", k>> : k \in 1..NRand} \cup (IF Tier = 0 THEN {} ELSE {<<"3", k, l>> : k \in 1..NKinds, l \in 1..NKinds})
GCases(ky) ==
  CASE ky[1] = "e" -> {One_(<<>>, Seed)}
    [] ky[1] = "sized" -> {SizedCase(ky[2], ky[3])}
    [] ky[1] = "big" -> {BigCase}
    [] ky[1] = "beyond" -> {LargeCase(Beyond(ky[2]))}
    [] ky[1] = "l" -> {LargeCase(r) : r \in Large(ky[2], ky[3])}
    [] ky[1] = "many" -> {ManyCase(ky[2])}
    [] ky[1] = "1" -> {Twice(<<ky[2]>>, Seed * 101 + j) : j \in 1..6}
    [] ky[1] = "2" -> {One_(<<ky[2], k>>, Seed * 101 + k) : k \in 1..NKinds}
    [] ky[1] = "3" -> {One_(<<ky[2], ky[3], k>>, Seed * 101 + k + 20 * ky[2]) : k \in 1..NKinds}
    [] ky[1] = "n" -> {NameCase(ky[2])}
    [] ky[1] = "r" -> {Twice(RandKinds(Seed * 10007 + ky[2]), Seed * 10007 + ky[2])}
(* every load of this generator must succeed, with exactly the described arrays *)
AllLoad == (Len(log) > 0 /\ acts[Len(log)].op = "weights") => out.ok
=============================================================================
