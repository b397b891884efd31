----------------------------- MODULE PicoRecords ----------------------------
(* Weights files to load: every kind of record, in every order.             *)
EXTENDS PicoFiles
CONSTANTS Seed, Tier

(* layer and network names: the format allows every byte but a newline *)
Long(n, c) == [i \in 1..n |-> c]
Names == << <<67, 111, 110, 118, 95, 48>>, <<>>, <<97>>, <<97, 32, 98, 9, 99>>, <<101, 110, 100>>, <<195, 164, 255, 128, 1>>, Long(97, 120), Long(98, 120),
            Long(99, 65), Long(100, 66), Long(101, 67), Long(150, 122), Long(255, 122), Long(256, 122), Long(1000, 48), <<70, 68>>, <<47, 37, 115, 37, 110>>, <<0, 65, 0>>, Long(130, 0),
            <<71, 101, 109, 109>>, <<66, 97, 116, 99, 104, 78, 111, 114, 109, 97, 108, 105, 122, 97, 116, 105, 111, 110>> >>
NKinds == 18
Empty4 == << <<>>, <<>>, <<>>, <<>> >>
(* the record of kind k over given dimensions, with the shapes of its tensors *)
RecDims(k, s, o, i, h, w, n, name) ==
  LET R(type, dims, ksh, kern, bshs, parts) == [r |-> [name |-> name, type |-> type, dims |-> dims, kern |-> kern, parts |-> parts], ks |-> ksh, bs |-> bshs]
      K(m) == Floats(s + 11, m)
      B(j, m) == Floats(s + 20 + j, m)
      mask == Rnd(s, 9, 1, 14)
      bn == [j \in 1..4 |-> IF (mask \div (CASE j = 1 -> 1 [] j = 2 -> 2 [] j = 3 -> 4 [] j = 4 -> 8)) % 2 = 1 THEN B(j, n) ELSE <<>>]
  IN
  CASE k = 1 -> R(T_Conv, <<o, i, h, w>>, << <<o, i, h, w>> >>, K(o * i * h * w), << <<n>> >>, <<B(1, n)>>)
    [] k = 2 -> R(T_Conv, <<o, i, h, w>>, << <<o, i, h, w>> >>, K(o * i * h * w), <<>>, << <<>> >>)
    [] k = 3 -> R(T_Conv, <<0, 0, 0, 0>>, <<>>, <<>>, << <<n>> >>, <<B(1, n)>>)
    [] k = 4 -> R(T_Conv, <<0, 0, 0, 0>>, <<>>, <<>>, <<>>, << <<>> >>)
    [] k = 5 -> R(T_BN, <<>>, <<>>, <<>>, << <<n>>, <<n>>, <<n>>, <<n>> >>, <<B(1, n), B(2, n), B(3, n), B(4, n)>>)
    [] k = 6 -> R(T_BN, <<>>, <<>>, <<>>, FlattenSeq([j \in 1..4 |-> IF bn[j] = <<>> THEN <<>> ELSE << <<n>> >>]), bn)
    [] k = 7 -> R(T_Gemm, <<1, h, w>>, << <<h, w>> >>, K(h * w), << <<n>> >>, <<B(1, n)>>)
    [] k = 8 -> R(T_Gemm, <<1, h, w>>, << <<h, w>> >>, K(h * w), <<>>, << <<>> >>)
    [] k = 9 -> R(T_Gemm, <<0, 0, 0>>, <<>>, <<>>, << <<n>> >>, <<B(1, n)>>)
    [] k = 10 -> R(T_MatMul, <<1, h, w>>, << <<h, w>> >>, K(h * w), <<>>, << <<>> >>)
    [] k = 11 -> R(T_Transpose, <<1, h, w>>, << <<h, w>> >>, K(h * w), <<>>, << <<>> >>)
    [] k = 12 -> R(T_Add, <<>>, <<>>, <<>>, << <<n>> >>, <<B(1, n)>>)
    [] k = 13 -> R(T_Add, <<>>, <<>>, <<>>, <<>>, << <<>> >>)
    [] k = 14 -> R(T_Conv, <<o, i, 1, w>>, << <<o, i, w>> >>, K(o * i * w), << <<n>> >>, <<B(1, n)>>)
    [] k = 15 -> R(T_MatMul, <<0, 0, 0>>, <<>>, <<>>, <<>>, << <<>> >>)
    [] k = 16 -> R(T_Gemm, <<0, 0, 0>>, <<>>, <<>>, <<>>, << <<>> >>)
    [] k = 17 -> R(T_BN, <<>>, <<>>, <<>>, <<>>, Empty4)
    [] k = 18 -> R(T_Transpose, <<1, h, w>>, << <<h, w>> >>, K(h * w), << <<n>> >>, <<B(1, n)>>)
RecOf(k, s) ==
  RecDims(k, s, Rnd(s, 1, 1, 3), Rnd(s, 2, 1, 3), Rnd(s, 3, 1, 3), Rnd(s, 4, 1, 4), Rnd(s, 5, 1, 5),
          IF Hash(6, s) % 4 = 0 THEN Choose(s, 7, Names) ELSE Choose(s, 8, SubSeq(Names, 1, 6)))
(* records in which one count at a time passes the sizes of a byte, of two bytes, of usual buffers *)
Large(k, j) == LET N == <<17, 33, 65, 100, 129, 256, 257, 300, 1025, 4097>>[j] D(o, i, h, w, n) == RecDims(k, Seed + j, o, i, h, w, n, <<76>>) IN
  CASE k \in {1, 2} -> IF j <= 9 THEN {D(N, 1, 1, 1, 1), D(1, N, 1, 1, 2), D(1, 1, N, 1, N), D(2, 1, 1, N, 1)} ELSE {D(1, 1, 1, N, 1)}
    [] k \in {3, 5, 6, 9, 12} -> {D(1, 1, 1, 1, N)}
    [] k = 14 -> IF j <= 9 THEN {D(N, 1, 1, 1, 1), D(1, N, 1, 1, N), D(1, 1, 1, N, 1)} ELSE {D(1, 1, 1, N, 1)}
    [] k \in {7, 8, 10, 11, 18} -> {D(1, 1, N, 1, 1), D(1, 1, 1, N, N)}
    [] OTHER -> {}
(* one large file: a convolution and a fully-connected layer *)
BigRecs(s) == << [r |-> [name |-> <<66>>, type |-> T_Conv, dims |-> <<20, 10, 5, 3>>, kern |-> Floats(s, 3000), parts |-> <<Floats(s + 1, 20)>>], ks |-> << <<20, 10, 5, 3>> >>, bs |-> << <<20>> >>],
                 [r |-> [name |-> <<67>>, type |-> T_Gemm, dims |-> <<1, 70, 90>>, kern |-> Floats(s + 2, 6300), parts |-> <<Floats(s + 3, 70)>>], ks |-> << <<70, 90>> >>, bs |-> << <<70>> >>],
                 [r |-> [name |-> <<68>>, type |-> T_BN, dims |-> <<>>, kern |-> <<>>, parts |-> <<Floats(s + 4, 300), Floats(s + 5, 300), Floats(s + 6, 300), Floats(s + 7, 300)>>],
                  ks |-> <<>>, bs |-> << <<300>>, <<300>>, <<300>>, <<300>> >>] >>
Sequence(ks, s) == [i \in 1..Len(ks) |-> RecOf(ks[i], s + 37 * i)]
RecsOf(rs) == [i \in 1..Len(rs) |-> rs[i].r]
KShapes(rs) == FlattenSeq([i \in 1..Len(rs) |-> rs[i].ks])
BShapes(rs) == FlattenSeq([i \in 1..Len(rs) |-> rs[i].bs])
(* the same file with other values *)
Revalue(rs, s) == [i \in 1..Len(rs) |-> [rs[i] EXCEPT !.r.kern = Floats(s + 3 * i, Len(@) \div 4),
                                                      !.r.parts = [j \in 1..Len(@) |-> Floats(s + 1000 + 4 * i + j, Len(@[j]) \div 4)]]]
KId(i) == "k" \o ToString(i)
BId(i) == "b" \o ToString(i)
(* the destination tensors: some previous contents, mostly an extra kernel and bias the file does not mention, and a bystander *)
Snug(rs) == (Len(KShapes(rs)) + 2 * Len(BShapes(rs))) % 3 = 0
KDest(rs) == KShapes(rs) \o (IF Snug(rs) THEN <<>> ELSE << <<2, 1, 1, 3>> >>)
BDest(rs) == BShapes(rs) \o (IF Snug(rs) THEN <<>> ELSE << <<3>> >>)
Dest(rs, s) ==
  LET ks == KDest(rs) bs == BDest(rs) IN
  [i \in 1..Len(ks) |-> [op |-> "tnew", id |-> KId(i), sh |-> ks[i], b |-> Floats(s + 500 + i, Prod(ks[i]))]]
  \o [i \in 1..Len(bs) |-> [op |-> "tnew", id |-> BId(i), sh |-> bs[i], b |-> Floats(s + 600 + i, Prod(bs[i]))]]
  \o << [op |-> "tnew", id |-> "z", sh |-> <<1, 2, 2, 2>>, b |-> Floats(s + 700, 8)] >>
KIds(rs) == [i \in 1..Len(KDest(rs)) |-> KId(i)]
BIds(rs) == [i \in 1..Len(BDest(rs)) |-> BId(i)]
Put(f, b) == [op |-> "put", file |-> f, b |-> b]
Load(f, rs) == [op |-> "weights", file |-> f, ks |-> KIds(rs), bs |-> BIds(rs)]
FileOf(name, rs) == EncWeights(name, RecsOf(rs))
=============================================================================
