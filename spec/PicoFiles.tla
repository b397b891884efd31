----------------------------- MODULE PicoFiles ------------------------------
(***************************************************************************)
(* The files pico-cnn reads and writes, as sequences of bytes, and the     *)
(* readers and writers as functions / token-level automata over them.      *)
(***************************************************************************)
EXTENDS PicoTensor

NL == 10
FDmagic == <<70, 68, 10>>
FCImagic == <<70, 67, 73, 10>>
FCOmagic == <<70, 67, 79, 10>>
EndMark == <<101, 110, 100, 10>>
T_Conv == <<67, 111, 110, 118>>
T_BN == <<66, 97, 116, 99, 104, 78, 111, 114, 109, 97, 108, 105, 122, 97, 116, 105, 111, 110>>
T_Gemm == <<71, 101, 109, 109>>
T_MatMul == <<77, 97, 116, 77, 117, 108>>
T_Transpose == <<84, 114, 97, 110, 115, 112, 111, 115, 101>>
T_Add == <<65, 100, 100>>
Types == {T_Conv, T_BN, T_Gemm, T_MatMul, T_Transpose, T_Add}

LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
BE32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Huge == 2147483647
(* the number of four bytes, cut off at Huge *)
Num(b) == IF b[4] >= 128 THEN Huge ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
NumBE(b) == Num(<<b[4], b[3], b[2], b[1]>>)
Dec(n) == (* decimal digits *)
  LET D(k) == 48 + ((n \div k) % 10) IN
  IF n < 10 THEN <<D(1)>> ELSE IF n < 100 THEN <<D(10), D(1)>> ELSE IF n < 1000 THEN <<D(100), D(10), D(1)>>
  ELSE IF n < 10000 THEN <<D(1000), D(100), D(10), D(1)>> ELSE <<D(10000), D(1000), D(100), D(10), D(1)>>

Flat(ss) == FlattenSeq(ss)
(* n floats as 4n arbitrary bytes; every 7th a special pattern *)
Patterns == << <<0, 0, 0, 0>>, <<0, 0, 0, 128>>, <<0, 0, 128, 63>>, <<1, 0, 0, 0>>, <<255, 255, 127, 127>>, <<0, 0, 128, 127>>,
               <<0, 0, 128, 255>>, <<52, 18, 192, 127>>, <<10, 10, 10, 10>>, <<101, 110, 100, 10>>, <<13, 10, 26, 0>>, <<0, 0, 128, 0>> >>
Floats(s, n) == [k \in 1..(4 * n) |-> LET i == 1 + ((k - 1) \div 4) j == 1 + ((k - 1) % 4) IN
                                     IF Hash(i, s) % 5 = 0 THEN Choose(s + 1, i, Patterns)[j] ELSE Hash(4 * i + j, s) % 256]
(* finite ones only *)
Finite(s, n) == [k \in 1..(4 * n) |-> LET i == 1 + ((k - 1) \div 4) j == 1 + ((k - 1) % 4) IN
                   IF Hash(i, s) % 5 = 0 THEN Patterns[1 + (Hash(i, s + 1) % 5)][j]
                   ELSE IF j = 4 THEN Choose(s, 7 * i, <<63, 64, 191, 62, 66, 60, 0, 127, 193>>)
                   ELSE IF j = 3 THEN Hash(4 * i + j, s) % 120 ELSE Hash(4 * i + j, s) % 256]

(***************************************************************************)
(* Weights file.  A record is                                              *)
(*   [name, type (bytes), dims (<<>> for Add and BN), kern (bytes of the   *)
(*    kernel values), parts (sequence of byte strings of the bias-like     *)
(*    arrays: 1, or 4 for BN)]                                             *)
(***************************************************************************)
EncRec(r) == r.name \o <<NL>> \o r.type \o <<NL>> \o Flat([i \in 1..Len(r.dims) |-> LE32(r.dims[i])]) \o r.kern
             \o Flat([i \in 1..Len(r.parts) |-> LE32(Len(r.parts[i]) \div 4) \o r.parts[i]])
EncWeights(name, recs) == FDmagic \o name \o <<NL>> \o LE32(Len(recs)) \o Flat([i \in 1..Len(recs) |-> EncRec(recs[i])]) \o EndMark

(* The reader, one token per step, on file f cut off after n bytes, into the tensor
   shapes dst = [k |-> kernels, b |-> biases].
   r = [ph phase, pos bytes consumed, left records to go, type, parts to go, ks, bs loaded arrays] *)
R0 == [ph |-> "magic", pos |-> 0, left |-> 0, type |-> <<>>, parts |-> 0, num |-> 0, ks |-> <<>>, bs |-> <<>>]
Err(r) == [r EXCEPT !.ph = "err"]
Sub(f, pos, k) == SubSeq(f, pos + 1, pos + k)
(* position of the next newline at or after pos (0-based) below n, or -1 *)
RECURSIVE NewlineAt(_, _, _)
NewlineAt(f, n, pos) ==      \* the first one, looking through the file in pieces
  IF pos >= n THEN -1
  ELSE LET to == MinOf(n, pos + 40) S == {i \in pos..(to - 1) : f[i + 1] = NL} IN IF S = {} THEN NewlineAt(f, n, to) ELSE Min(S)
NextPart(r) == IF r.parts > 1 THEN [r EXCEPT !.ph = "count", !.parts = @ - 1]
               ELSE IF r.left > 1 THEN [r EXCEPT !.ph = "lname", !.left = @ - 1] ELSE [r EXCEPT !.ph = "end", !.left = 0]
Fixed(ph) == ph \in {"magic", "layers", "dims", "kern", "count", "vals", "end"}
Size(r) == CASE r.ph = "magic" -> 3 [] r.ph \in {"layers", "count", "end"} -> 4
             [] r.ph = "dims" -> IF r.type = T_Conv THEN 16 ELSE 12
             [] r.ph \in {"kern", "vals"} -> 4 * r.num
DimsFit(d, t) == IF Len(d) = 4 THEN N4(t) = d ELSE d[1] = 1 /\ d[2] < 30000 /\ d[3] < 30000 /\ d[2] * d[3] = Prod(t)
ReadStep(f, n, dst, r) ==
  IF Fixed(r.ph) THEN
    IF r.pos + Size(r) > n THEN Err(r)
    ELSE LET b == Sub(f, r.pos, Size(r)) q == [r EXCEPT !.pos = @ + Size(r)] IN
      CASE r.ph = "magic"  -> IF b = FDmagic THEN [q EXCEPT !.ph = "name"] ELSE Err(q)
        [] r.ph = "layers" -> IF Num(b) = 0 THEN [q EXCEPT !.ph = "end"] ELSE [q EXCEPT !.ph = "lname", !.left = Num(b)]
        [] r.ph = "dims"   ->
             LET d == [i \in 1..(Len(b) \div 4) |-> Num(Sub(b, 4 * (i - 1), 4))]
                 none == IF r.type = T_Conv THEN \E i \in 1..4 : d[i] = 0 ELSE d[1] = 0
             IN IF none THEN [q EXCEPT !.ph = "count"]
                ELSE IF Len(q.ks) >= Len(dst.k) THEN [q EXCEPT !.ph = "undef"]
                ELSE IF ~DimsFit(d, dst.k[Len(q.ks) + 1]) THEN Err(q)
                ELSE [q EXCEPT !.ph = "kern", !.num = Prod(dst.k[Len(q.ks) + 1])]
        [] r.ph = "kern"   -> [q EXCEPT !.ph = "count", !.ks = Append(@, b)]
        [] r.ph = "count"  ->
             IF Num(b) = 0 THEN NextPart(q)
             ELSE IF Len(q.bs) >= Len(dst.b) THEN [q EXCEPT !.ph = "undef"]
             ELSE IF Num(b) # Prod(dst.b[Len(q.bs) + 1]) THEN Err(q)
             ELSE [q EXCEPT !.ph = "vals", !.num = Num(b)]
        [] r.ph = "vals"   -> NextPart([q EXCEPT !.bs = Append(@, b)])
        [] r.ph = "end"    -> IF b = EndMark THEN [q EXCEPT !.ph = "ok"] ELSE Err(q)
  ELSE
    LET e == NewlineAt(f, n, r.pos) IN
    IF e < 0 THEN Err(r)
    ELSE LET b == Sub(f, r.pos, e - r.pos) q == [r EXCEPT !.pos = e + 1] IN
      CASE r.ph = "name"  -> [q EXCEPT !.ph = "layers"]
        [] r.ph = "lname" -> [q EXCEPT !.ph = "ltype"]
        [] r.ph = "ltype" -> IF \E i \in 1..Len(b) : b[i] = 0 THEN [q EXCEPT !.ph = "undef"]     \* not text
                             ELSE IF b \notin Types THEN Err(q)
                             ELSE [q EXCEPT !.type = b, !.parts = IF b = T_BN THEN 4 ELSE 1,
                                            !.ph = IF b \in {T_BN, T_Add} THEN "count" ELSE "dims"]
(* "undef": the file describes more arrays than the caller has tensors, which the interface cannot express *)
Done(r) == r.ph \in {"ok", "err", "undef"}
RECURSIVE ReadAll(_, _, _, _)
(* fifty steps at a time: TLC is slow in deep recursions *)
Fifty == [i \in 1..50 |-> i]
ReadAll(f, n, dst, r) == IF Done(r) THEN r ELSE ReadAll(f, n, dst, TLCEval(FoldLeft(LAMBDA s, i : IF Done(s) THEN s ELSE TLCEval(ReadStep(f, n, dst, s)), r, Fifty)))
ReadWeights(f, dst) == ReadAll(f, Len(f), dst, R0)

(* what a list of records describes: the arrays in file order *)
Described(recs) == [ks |-> Flat([i \in 1..Len(recs) |-> IF recs[i].kern = <<>> THEN <<>> ELSE <<recs[i].kern>>]),
                    bs |-> Flat([i \in 1..Len(recs) |-> Flat([j \in 1..Len(recs[i].parts) |-> IF recs[i].parts[j] = <<>> THEN <<>> ELSE <<recs[i].parts[j]>>])])]

(***************************************************************************)
(* Reference data                                                          *)
(***************************************************************************)
EncIn(c, h, w, vals) == FCImagic \o LE32(1) \o LE32(c) \o LE32(h) \o LE32(w) \o vals \o EndMark
EncOut(n, vals) == FCOmagic \o LE32(1) \o LE32(n) \o vals \o EndMark
RefIn(f, sh) ==
  LET n == N4(sh) k == 4 * Prod(sh) IN
  IF Len(sh) = 1 \/ Len(f) < 20 + k + 4 THEN [ok |-> FALSE, b |-> <<>>]
  ELSE IF Sub(f, 0, 4) = FCImagic /\ Num(Sub(f, 4, 4)) = 1 /\ Num(Sub(f, 8, 4)) = n[2] /\ Num(Sub(f, 12, 4)) = n[3]
          /\ Num(Sub(f, 16, 4)) = n[4] /\ Sub(f, 20 + k, 4) = EndMark
  THEN [ok |-> TRUE, b |-> Sub(f, 20, k)] ELSE [ok |-> FALSE, b |-> <<>>]
RefOut(f, sh) ==
  LET k == 4 * Prod(sh) IN
  IF Len(sh) # 2 \/ Len(f) < 12 + k + 4 THEN [ok |-> FALSE, b |-> <<>>]
  ELSE IF Sub(f, 0, 4) = FCOmagic /\ Num(Sub(f, 4, 4)) = 1 /\ Num(Sub(f, 8, 4)) = Prod(sh) /\ Sub(f, 12 + k, 4) = EndMark
  THEN [ok |-> TRUE, b |-> Sub(f, 12, k)] ELSE [ok |-> FALSE, b |-> <<>>]

(***************************************************************************)
(* MNIST: images as sequences of bytes or -1 for the border                *)
(***************************************************************************)
EncMnistImages(n, h, w, px) == <<0, 0, 8, 3>> \o BE32(n) \o BE32(h) \o BE32(w) \o px
EncMnistLabels(n, ls) == <<0, 0, 8, 1>> \o BE32(n) \o ls
Bordered(h, w, p, Px(_, _)) ==    \* row-major (h+2p) x (w+2p)
  LET W == w + 2 * p IN
  [k \in 1..((h + 2 * p) * W) |->
     LET i == ((k - 1) \div W) - p j == ((k - 1) % W) - p IN
     IF i >= 0 /\ i < h /\ j >= 0 /\ j < w THEN Px(i, j) ELSE -1]
MnistImages(f, req, p) ==
  IF Len(f) < 16 \/ Sub(f, 0, 4) # <<0, 0, 8, 3>> THEN [n |-> 0, h |-> 0, w |-> 0, imgs |-> <<>>]
  ELSE LET n == MinOf(req, NumBE(Sub(f, 4, 4))) h == NumBE(Sub(f, 8, 4)) w == NumBE(Sub(f, 12, 4)) IN
       [n |-> n, h |-> h, w |-> w,
        imgs |-> [m \in 1..n |-> Bordered(h, w, p, LAMBDA i, j : f[16 + (m - 1) * h * w + i * w + j + 1])]]
MnistLabels(f, req) ==
  IF Len(f) < 8 \/ Sub(f, 0, 4) # <<0, 0, 8, 1>> THEN [n |-> 0, ls |-> <<>>]
  ELSE LET n == MinOf(req, NumBE(Sub(f, 4, 4))) IN [n |-> n, ls |-> Sub(f, 8, n)]

(***************************************************************************)
(* PGM (as written by the library: with its comment line)                  *)
(***************************************************************************)
Comment == <<35, 32, 112, 105, 99, 111, 45, 99, 110, 110, 10>>     \* "# pico-cnn\n"
EncPgm(h, w, px) == <<80, 53, 10>> \o Comment \o Dec(w) \o <<32>> \o Dec(h) \o <<10>> \o Dec(255) \o <<10>> \o px
SeqMaxF(v) == FoldFunction(LAMBDA x, y : IF x > y THEN x ELSE y, v[1], v)
SeqMinF(v) == FoldFunction(LAMBDA x, y : IF x < y THEN x ELSE y, v[1], v)
(* the pixel an image value maps to, as the two integers next to the exact value *)
PgmPixels(v) ==
  LET mx == SeqMaxF(v) mn == SeqMinF(v) r == mx - mn IN
  [i \in 1..Len(v) |-> IF r = 0 THEN <<0, 255>>
                       ELSE IF v[i] = mx THEN <<255, 255>> ELSE IF v[i] = mn THEN <<0, 0>>
                       ELSE <<(255 * (v[i] - mn) - 1) \div r, MinOf(1 + (255 * (v[i] - mn)) \div r, 255)>>]

(***************************************************************************)
(* Text files                                                              *)
(***************************************************************************)
Lines(ls) == Flat([i \in 1..Len(ls) |-> ls[i] \o <<NL>>])
(* the lines of a file, without their newline; the last one need not have one *)
LineList(f) == LET e == SetToSortSeq({0} \cup {i \in 1..Len(f) : f[i] = NL} \cup (IF f = <<>> \/ f[Len(f)] = NL THEN {} ELSE {Len(f) + 1}), <) IN
               [k \in 1..(Len(e) - 1) |-> SubSeq(f, e[k] + 1, e[k + 1] - 1)]
(* a hexadecimal float literal for the four bytes of a finite float *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexFloat(b) ==
  LET man == b[1] + 256 * b[2] + 65536 * (b[3] % 128)
      ex == 2 * (b[4] % 128) + (b[3] \div 128)
      m2 == 2 * man
      sign == IF b[4] >= 128 THEN <<45>> ELSE <<>>
      digits == <<HexDigit((m2 \div 1048576) % 16), HexDigit((m2 \div 65536) % 16), HexDigit((m2 \div 4096) % 16),
                  HexDigit((m2 \div 256) % 16), HexDigit((m2 \div 16) % 16), HexDigit(m2 % 16)>>
      e == IF ex = 0 THEN -126 ELSE ex - 127
  IN sign \o <<48, 120, IF ex = 0 THEN 48 ELSE 49, 46>> \o digits \o <<112>> \o (IF e < 0 THEN <<45>> \o Dec(0 - e) ELSE <<43>> \o Dec(e))
EncMeans(b) == FDmagic \o Flat([i \in 1..3 |-> HexFloat(Sub(b, 4 * (i - 1), 4)) \o <<NL>>])
(* "ILSVRC2012_val_" digits ".JPEG" : 28 characters, then the class *)
Digits(n, k) == [i \in 1..k |-> 48 + ((n \div (CASE k - i = 0 -> 1 [] k - i = 1 -> 10 [] k - i = 2 -> 100 [] k - i = 3 -> 1000 [] k - i = 4 -> 10000 [] OTHER -> 100000)) % 10)]
ValName(n) == <<73, 76, 83, 86, 82, 67, 50, 48, 49, 50, 95, 118, 97, 108, 95>> \o <<48, 48>> \o Digits(n, 6) \o <<46, 74, 80, 69, 71>>
EncVal(n, c) == ValName(n) \o <<32>> \o Dec(c)

(***************************************************************************)
(* The file interface as a state machine: fs maps names to bytes, ts maps  *)
(* tensor ids to [sh, b].  A tensor whose load failed is unspecified.      *)
(***************************************************************************)
Has(fs, n) == n \in DOMAIN fs
PutF(f, k, v) == (k :> v) @@ f
DropF(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
FEff(fs, ts, out, wr, un) == [fs |-> fs, ts |-> ts, out |-> out, wr |-> wr, un |-> un]
Ret(ok) == [k |-> "ret", ok |-> ok]
LoadAll(ts, ids, arrays) == [x \in DOMAIN ts |-> IF \E i \in 1..Len(arrays) : ids[i] = x
                              THEN [ts[x] EXCEPT !.b = arrays[CHOOSE i \in 1..Len(arrays) : ids[i] = x]] ELSE ts[x]]
Unknown(ts, ids) == [x \in DOMAIN ts |-> IF x \in ids THEN [ts[x] EXCEPT !.b = <<>>] ELSE ts[x]]
Range_(s) == {s[i] : i \in 1..Len(s)}
Shapes_(ts, ids) == [i \in 1..Len(ids) |-> ts[ids[i]].sh]
FDo(fs, ts, a) ==
  CASE a.op = "put"  -> FEff(PutF(fs, a.file, a.b), ts, [k |-> "ok"], {}, {})
    [] a.op = "putraw" -> FEff(PutF(fs, a.file, [raw |-> a.b]), ts, [k |-> "ok"], {}, {})     \* a file of no format
    [] a.op = "rm"   -> FEff(DropF(fs, a.file), ts, [k |-> "ok"], {}, {})
    [] a.op = "tnew" -> FEff(fs, PutF(ts, a.id, [sh |-> a.sh, b |-> a.b]), [k |-> "ok"], {a.id}, {})
    [] a.op = "weights" ->
         LET r == ReadWeights(fs[a.file], [k |-> Shapes_(ts, a.ks), b |-> Shapes_(ts, a.bs)]) IN
         IF Has(fs, a.file) /\ r.ph = "ok"
         THEN FEff(fs, LoadAll(LoadAll(ts, a.ks, r.ks), a.bs, r.bs), Ret(TRUE), Range_(SubSeq(a.ks, 1, Len(r.ks))) \cup Range_(SubSeq(a.bs, 1, Len(r.bs))), {})
         ELSE FEff(fs, Unknown(ts, Range_(a.ks) \cup Range_(a.bs)), Ret(FALSE), {}, Range_(a.ks) \cup Range_(a.bs))
    [] a.op \in {"refin", "refout"} ->
         LET r == IF a.op = "refin" THEN RefIn(fs[a.file], ts[a.id].sh) ELSE RefOut(fs[a.file], ts[a.id].sh) IN
         IF Has(fs, a.file) /\ r.ok THEN FEff(fs, PutF(ts, a.id, [ts[a.id] EXCEPT !.b = r.b]), Ret(TRUE), {a.id}, {})
         ELSE FEff(fs, Unknown(ts, {a.id}), Ret(FALSE), {}, {a.id})
    \* every proper prefix of the file is refused
    [] a.op = "cuts" ->
         LET f == fs[a.file]
             Acc(n) == CASE a.what = "weights" -> ReadAll(f, n, [k |-> Shapes_(ts, a.ks), b |-> Shapes_(ts, a.bs)], R0).ph = "ok"
                         [] a.what = "refin" -> RefIn(SubSeq(f, 1, n), ts[a.id].sh).ok
                         [] a.what = "refout" -> RefOut(SubSeq(f, 1, n), ts[a.id].sh).ok
             ids == IF a.what = "weights" THEN Range_(a.ks) \cup Range_(a.bs) ELSE {a.id}
         IN FEff(fs, Unknown(ts, ids), [k |-> "cuts", accepted |-> Cardinality({n \in 0..(Len(f) - 1) : Acc(n)})], {}, ids)
    [] a.op = "mnimg" -> FEff(fs, ts, LET r == MnistImages(fs[a.file], a.req, a.pad) IN
                              IF Has(fs, a.file) THEN [k |-> "imgs", n |-> r.n, h |-> r.h, w |-> r.w, imgs |-> r.imgs]
                              ELSE [k |-> "imgs", n |-> 0, h |-> 0, w |-> 0, imgs |-> <<>>], {}, {})
    [] a.op = "mnlab" -> FEff(fs, ts, LET r == MnistLabels(fs[a.file], a.req) IN
                              IF Has(fs, a.file) THEN [k |-> "labs", n |-> r.n, ls |-> r.ls] ELSE [k |-> "labs", n |-> 0, ls |-> <<>>], {}, {})
    [] a.op = "endian" -> FEff(fs, ts, [k |-> "bytes", b |-> Reverse(a.b)], {}, {})
    \* a picture file holds [h, w, px] with px pairs of bounds
    [] a.op = "putpgm" -> FEff(PutF(fs, a.file, [h |-> a.h, w |-> a.w, px |-> [i \in 1..Len(a.px) |-> <<a.px[i], a.px[i]>>]]), ts,
                               [k |-> "file", b |-> EncPgm(a.h, a.w, a.px)], {}, {})
    [] a.op = "wpgm" -> IF a.file = "no/dir" THEN FEff(fs, ts, Ret(FALSE), {}, {})
                        ELSE FEff(PutF(fs, a.file, [h |-> a.h, w |-> a.w, px |-> PgmPixels(a.v)]), ts,
                                  [k |-> "pgm", h |-> a.h, w |-> a.w, px |-> PgmPixels(a.v)], {}, {})
    [] a.op = "rpgm" -> IF ~Has(fs, a.file) THEN FEff(fs, ts, Ret(FALSE), {}, {})
                        ELSE LET p == fs[a.file] IN
                        FEff(fs, ts, [k |-> "img", h |-> p.h, w |-> p.w,
                             px |-> LET W == p.w + 2 * a.pad IN
                               [k \in 1..((p.h + 2 * a.pad) * W) |->
                                LET i == ((k - 1) \div W) - a.pad j == ((k - 1) % W) - a.pad IN
                                IF i >= 0 /\ i < p.h /\ j >= 0 /\ j < p.w THEN p.px[i * p.w + j + 1] ELSE <<-1, -1>>]], {}, {})
    [] a.op = "wfloat" -> IF a.file = "no/dir" THEN FEff(fs, ts, Ret(FALSE), {}, {})
                          ELSE FEff(fs, ts, [k |-> "floats", h |-> a.h, w |-> a.w, b |-> a.b], {}, {})
    [] a.op = "labels" -> FEff(fs, ts, IF Has(fs, a.file) THEN LET all == LineList(fs[a.file]) l == SubSeq(all, 1, MinOf(a.n, Len(all))) IN [k |-> "lines", n |-> Len(l), ls |-> l]
                                       ELSE [k |-> "lines", n |-> 0, ls |-> <<>>], {}, {})
    [] a.op = "putval" -> FEff(PutF(fs, a.file, [cls |-> a.cls]), ts, [k |-> "file", b |-> Lines([i \in 1..Len(a.cls) |-> EncVal(i + a.from, a.cls[i])])], {}, {})
    [] a.op = "vlabels" -> FEff(fs, ts, IF Has(fs, a.file) THEN [k |-> "vals", vs |-> SubSeq(fs[a.file].cls, 1, a.n)] ELSE Ret(FALSE), {}, {})
    [] a.op = "putmeans" -> FEff(PutF(fs, a.file, [means |-> a.b]), ts, [k |-> "file", b |-> EncMeans(a.b)], {}, {})
    [] a.op = "means" -> FEff(fs, ts, IF Has(fs, a.file) /\ "means" \in DOMAIN fs[a.file] THEN [k |-> "means", b |-> fs[a.file].means]
                                      ELSE Ret(FALSE), {}, {})
    \* a picture of constant 8x8 blocks, one colour <<r, g, b>> per block, encoded without loss (mode rgb, grey) or nearly so (ycc)
    [] a.op = "putjpeg" -> FEff(PutF(fs, a.file, [jpeg |-> a]), ts, [k |-> "ok"], {}, {})
    [] a.op = "rjpeg" -> IF ~Has(fs, a.file) THEN FEff(fs, ts, Ret(FALSE), {}, {})
                         ELSE LET p == fs[a.file].jpeg bw == ((p.w + 7) \div 8)
                                  Pl(c) == [k \in 1..(p.h * p.w) |-> p.px[((((k - 1) \div p.w) \div 8) * bw) + (((k - 1) % p.w) \div 8) + 1][IF p.mode = "grey" THEN 1 ELSE c]]
                              IN FEff(fs, ts, [k |-> "planes", h |-> p.h, w |-> p.w, tol |-> IF p.mode = "ycc" THEN 3 ELSE 0,
                                               planes |-> <<Pl(3), Pl(2), Pl(1)>>], {}, {})
=============================================================================
