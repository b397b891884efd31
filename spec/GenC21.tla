------------------------------- MODULE GenC21 -------------------------------
(* C21: MNIST image and label files, byte order *)
EXTENDS PicoFileGen
CONSTANTS Seed, Tier
Put(f, b) == [op |-> "put", file |-> f, b |-> b]
Bounds == << <<0, 1, 0>>, <<-1, 1, 0>>, <<0, 255, 0>>, <<-128, 127, 0>>, <<1, 3, -1>>, <<-5, -2, 0>>, <<0, 0, 0>>, <<-3, 100, -5>>, <<7, 1000, 6>>, <<-1, 0, -10>> >>
Img(f, req, p, b) == [op |-> "mnimg", file |-> f, req |-> req, pad |-> p, lo |-> b[1], hi |-> b[2], x |-> b[3]]
Lab(f, req) == [op |-> "mnlab", file |-> f, req |-> req]
Px(s, n) == [i \in 1..n |-> IF s % 4 = 0 THEN i % 256 ELSE Hash(i, s) % 256]
Images(n, h, w, s) == EncMnistImages(n, h, w, Px(s, n * h * w))
Scen(n, h, w, s) ==
  <<Put("i", Images(n, h, w, s))>> \o [j \in 1..(n + 3) |-> Img("i", j - 1, (j + s) % 4, Choose(s, j, Bounds))]
  \o <<Img("i", n, Choose(s, 50, <<5, 9, 17>>), Choose(s, 51, Bounds)), Img("i", 1000, 0, Choose(s, 52, Bounds))>>
LabScen(n, s) == <<Put("l", EncMnistLabels(n, Px(s, n)))>> \o [j \in 1..(n + 3) |-> Lab("l", j - 1)] \o <<Lab("l", 1000)>>
(* the magic number in every damaged form, and the two kinds of files exchanged *)
Magic(s) ==
  LET i == Images(2, 3, 2, s) l == EncMnistLabels(4, Px(s, 4)) IN
  <<Img("missing", 3, 1, Bounds[1]), Lab("missing", 3), Img("no/dir", 3, 1, Bounds[1]), Lab("no/dir", 3),
    Put("i", i), Put("l", l), Img("l", 2, 0, Bounds[1]), Lab("i", 2), Img("i", 2, 0, Bounds[1]), Lab("l", 2)>>
  \o Flat([k \in 1..4 |-> Flat([j \in 1..5 |-> LET B(f) == [f EXCEPT ![k] = (@ + <<1, 2, 128, 254, 255>>[j]) % 256] IN
       <<Put("i", B(i)), Img("i", 2, 1, Bounds[2]), Put("l", B(l)), Lab("l", 3)>>])])
  \o <<Put("i", Reverse(SubSeq(i, 1, 4)) \o SubSeq(i, 5, Len(i))), Img("i", 2, 1, Bounds[2]), Put("l", Reverse(SubSeq(l, 1, 4)) \o SubSeq(l, 5, Len(l))), Lab("l", 4), Put("i", i), Img("i", 2, 1, Bounds[2])>>
Endian(s) == [k \in 1..60 |-> [op |-> "endian", b |-> IF k <= 32 THEN [j \in 1..4 |-> IF (k - 1) \div 8 = j - 1 THEN <<1, 2, 4, 8, 16, 32, 64, 128>>[1 + ((k - 1) % 8)] ELSE 0]
                                                   ELSE IF k = 33 THEN <<255, 255, 255, 255>> ELSE [j \in 1..4 |-> Hash(4 * k + j, s) % 256]]]
Big == <<Put("i", Images(3, 28, 28, Seed)), Img("i", 3, 2, Bounds[2]), Img("i", 2, 0, Bounds[1]), Put("i", EncMnistImages(1, 16, 16, [i \in 1..256 |-> i - 1])), Img("i", 1, 0, Bounds[3]), Img("i", 1, 3, Bounds[2]),
         Put("l", EncMnistLabels(600, Px(Seed, 600))), Lab("l", 600), Lab("l", 299), Put("i", Images(300, 1, 2, Seed)), Img("i", 290, 1, Bounds[1])>>
(* more images and labels than two bytes count *)
Masses == << <<Put("l", EncMnistLabels(65540, Px(Seed, 65540))), Lab("l", 65538)>>, <<Put("i", Images(65539, 1, 1, Seed + 1)), Img("i", 65537, 0, Bounds[2]), Img("i", 3, 1, Bounds[2])>>,
           <<Put("l", EncMnistLabels(33000, Px(Seed, 33000))), Lab("l", 32900), Lab("l", 5)>>, <<Put("i", Images(2000, 1, 1, Seed + 1)), Img("i", 1900, 1, Bounds[2])>>,
           <<Put("i", Images(1, 257, 259, Seed + 1)), Img("i", 1, 0, Bounds[1])>>, <<Put("i", Images(1, 1, 5000, Seed + 1)), Img("i", 1, 0, Bounds[1])>> >>
Wide == <<Put("i", Images(1, 2, 300, Seed)), Img("i", 1, 2, Bounds[1]), Put("i", Images(2, 300, 1, Seed)), Img("i", 2, 1, Bounds[2]), Put("i", Images(1, 1, 1, Seed)), Img("i", 1, 200, Bounds[2])>>
NV == IF Tier = 0 THEN 3 ELSE 20
GKeys == {<<"i", h, w>> : h \in 1..4, w \in 1..4} \cup {<<"l", n>> : n \in 0..8} \cup {<<"magic">>, <<"endian">>, <<"big">>, <<"wide">>} \cup {<<"mass", m>> : m \in 1..6}
GCases(ky) ==
  CASE ky[1] = "i" -> {Scen(n, ky[2], ky[3], Seed * 97 + 11 * n + j) : n \in 0..4, j \in 1..NV}
    [] ky[1] = "l" -> {LabScen(ky[2], Seed * 89 + j) : j \in 1..NV}
    [] ky[1] = "magic" -> {Magic(Seed + j) : j \in 1..NV}
    [] ky[1] = "endian" -> {Endian(Seed + j) : j \in 1..(4 * NV)}
    [] ky[1] = "big" -> {Big} [] ky[1] = "wide" -> {Wide} [] ky[1] = "mass" -> {Masses[ky[2]]}
=============================================================================
