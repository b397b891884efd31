------------------------------- MODULE GenC23 -------------------------------
(* C23: ImageNet label, validation label and mean files *)
EXTENDS PicoFileGen
CONSTANTS Seed, Tier
Put(f, b) == [op |-> "put", file |-> f, b |-> b]
Labels(f, n) == [op |-> "labels", file |-> f, n |-> n]
PutVal(f, cls, from) == [op |-> "putval", file |-> f, cls |-> cls, from |-> from]
VLabels(f, n) == [op |-> "vlabels", file |-> f, n |-> n]
PutMeans(f, b) == [op |-> "putmeans", file |-> f, b |-> b]
Means(f) == [op |-> "means", file |-> f]
(* lines of text: letters, blanks, commas, quotes, digits, high bytes; lengths 0..249 *)
Chars == <<97, 98, 122, 65, 90, 32, 44, 39, 45, 48, 57, 9, 37, 195, 164, 255, 35, 46, 13>>
Line(s, n) == [i \in 1..n |-> Choose(s, i, Chars)]
Lens == <<0, 1, 2, 3, 10, 30, 60, 100, 126, 127, 128, 200, 247, 248, 249>>
File(k, s) == Lines([i \in 1..k |-> Line(s + 17 * i, Choose(s, i, Lens))])
Short(k, s) == Lines([i \in 1..k |-> Line(s + 17 * i, Rnd(s, i, 0, 6))])
LabScen(k, s) == <<Put("l", File(k, s)), Labels("l", MaxOf(k, 1)), Labels("l", 1000), Put("m", Short(k, s + 1)), Labels("m", k + 5), Labels("l", k + 1)>>
LenScen(n, s) == <<Put("l", Lines(<<Line(s, n), Line(s + 1, 3), Line(s + 2, n)>>)), Labels("l", 3)>>
(* as many labels as requested, and no more; the last line may end with the file *)
LabFewer(k, s) == <<Put("l", File(k, s))>> \o [n \in 1..(k + 2) |-> Labels("l", n)]
Open(k, n, s) == LET f == Lines([i \in 1..k |-> Line(s + 17 * i, Choose(s, i, Lens))]) \o Line(s + 5, n) IN <<Put("l", f), Labels("l", k + 1), Labels("l", k + 5), Labels("l", MaxOf(k, 1))>>
Cls(s, i) == CASE Hash(i, s) % 4 = 0 -> Rnd(s + 1, i, 0, 9) [] Hash(i, s) % 4 = 1 -> Rnd(s + 1, i, 10, 99) [] OTHER -> Rnd(s + 1, i, 100, 1000)
ValScen(k, s) == <<PutVal("v", [i \in 1..k |-> Cls(s, i)], Rnd(s, 1, 0, 49000)), VLabels("v", k), VLabels("v", k), PutVal("v", [i \in 1..k |-> Cls(s + 3, i)], 0), VLabels("v", k)>>
(* fewer labels requested than the file has *)
ValFewer(k, s) == <<PutVal("v", [i \in 1..k |-> Cls(s, i)], 0)>> \o [n \in 1..k |-> VLabels("v", n)]
MeanScen(s) == <<PutMeans("m", Finite(s, 3)), Means("m"), PutMeans("n", Finite(s + 1, 3)), Means("n"), Means("m")>>
Errors == <<Labels("missing", 5), VLabels("missing", 5), Means("missing"), Labels("no/dir", 5), VLabels("no/dir", 5), Means("no/dir")>>
  \o Flat([i \in 1..7 |-> <<[op |-> "putraw", file |-> "m", b |-> << <<>>, <<10>>, <<70, 68>>, <<70, 70, 10>>, <<70, 67, 79, 10>>, <<102, 100, 10>>, <<32, 70, 68, 10>> >>[i] \o (IF i = 1 THEN <<>> ELSE SubSeq(EncMeans(Finite(i, 3)), 4, 40))], Means("m")>>])
  \o <<Put("l", <<>>), Labels("l", 5)>> \o MeanScen(3)
NV == IF Tier = 0 THEN 6 ELSE 60
GKeys == {<<"l", k>> : k \in 1..12} \cup {<<"len", n>> : n \in 0..249} \cup {<<"v", k>> : k \in 1..10} \cup {<<"m", k>> : k \in 1..20} \cup {<<"err">>, <<"big">>}
GCases(ky) ==
  CASE ky[1] = "l" -> {LabScen(ky[2], Seed * 67 + j) : j \in 1..NV} \cup {LabFewer(ky[2], Seed * 68 + j) : j \in 1..NV}
                    \cup {Open(ky[2] - 1, Lens[n], Seed * 69 + n) : n \in 2..Len(Lens)}
    [] ky[1] = "len" -> {LenScen(ky[2], Seed)}
    [] ky[1] = "v" -> {ValScen(ky[2], Seed * 71 + j) : j \in 1..(2 * NV)} \cup {ValFewer(ky[2], Seed * 73 + j) : j \in 1..NV}
    [] ky[1] = "m" -> {MeanScen(Seed * 79 + 20 * ky[2] + j) : j \in 1..NV}
    [] ky[1] = "err" -> {Errors}
    [] ky[1] = "big" -> {<<Put("l", Short(1000, Seed)), Labels("l", 1000), Put("k", Short(1500, Seed)), Labels("k", 1500), Labels("k", 1200), Labels("k", 1001), Labels("k", 1000), Labels("k", 7), Labels("l", 2000), PutVal("v", [i \in 1..300 |-> Cls(Seed, i)], 49000), VLabels("v", 300)>>}
=============================================================================
