------------------------------- MODULE GenC35 -------------------------------
(* C35: preparing images *)
EXTENDS PicoPictures
CONSTANTS Seed, Tier
S0(a, b) == (Seed * 8087) + (a * 167) + b
Q == Tier = 0
N(stem, ext, ils) == [stem |-> stem, ext |-> ext, ils |-> ils]
Ils == <<N("ILSVRC2012_val_00000001", ".JPEG", TRUE), N("ILSVRC", ".JPEG", TRUE), N("ILSVRC b.c", ".JPEG", TRUE), N("ILSVRC_3", ".JPEG", TRUE), N("ILSVRC.JPEG", ".JPEG", TRUE)>>
Others_ == <<N("cat", ".JPEG", FALSE), N("", ".JPEG", FALSE), N("a.b c", ".JPEG", FALSE), N("x_ILSVRC", ".JPEG", FALSE), N("ilsvrc1", ".JPEG", FALSE), N("4x4_scale_dog", ".JPEG", FALSE)>>
NoImages == <<N("ILSVRC2012_val_00000002", ".jpeg", TRUE), N("ILSVRC9.JPEG", ".txt", TRUE), N("labels", ".txt", FALSE), N("ILSVRC", "", TRUE), N("cat", ".JPG", FALSE), N("catJPEG", "", FALSE), N("dog.JPEG", ".bak", FALSE)>>
Dirs == << <<"pics", "pics">>, <<"pics", "pics/">>, <<"pics", "./pics">>, <<"a b/c.d", "a b/c.d">>, <<"scaled_4x4", "scaled_4x4">> >>
Im(s, w, h) == Img(w, h, IF Rnd(s, w + h, 0, 2) = 0 THEN "L" ELSE "RGB", TLCEval([k \in 1..(w * h) |-> Rnd(s, k, 0, 999)]))
Put_(d, n, im) == [op |-> "img", dir |-> d, n |-> n, im |-> im]
Rm_(d, n) == [op |-> "rm", dir |-> d, n |-> n]
Prep(d, mode, size, pos) == [op |-> "prep", dir |-> d[1], arg |-> d[2], mode |-> mode, size |-> size, pos |-> pos]
Sizes(s) == Choose(s, 71, << <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<1, 2>>, <<3, 2>>, <<2, 5>>, <<4, 1>>, <<4, 4>>, <<5, 3>> >>)
(* images at least as large as a window, in either direction by any amount *)
Some(d, s, n, w, h) == [i \in 1..n |-> Put_(d[1], CASE i % 3 = 1 -> Ils[1 + ((s + i) % Len(Ils))] [] i % 3 = 2 -> Others_[1 + ((s + i) % Len(Others_))] [] OTHER -> NoImages[1 + ((s + i) % Len(NoImages))],
                              Im(s + i, w + Rnd(s, 3 * i, 0, 4), h + Rnd(s, 3 * i + 1, 0, 4)))]
(* every size of image against every size of window *)
One_(mode, w, h, cw, ch, s) == LET d == Dirs[1] IN <<Put_(d[1], Ils[1], Im(s, w, h)), Prep(d, mode, IF cw = ch /\ s % 2 = 0 THEN <<cw>> ELSE <<cw, ch>>, <<>>)>>
(* every position of a window within and beyond an image *)
Pos(w, h, cw, ch, x, y, s) == LET d == Dirs[1] IN <<Put_(d[1], Ils[1 + (s % 5)], Im(s, w, h)), Prep(d, "crop", <<cw, ch>>, IF x = y /\ s % 2 = 0 THEN <<x>> ELSE <<x, y>>)>>
(* a folder of images and others, treated again and again *)
Mixed(s) ==
  LET d == Choose(s, 1, Dirs) z == Sizes(s) w == Two(z)[1] h == Two(z)[2] IN
  Some(d, s, 7, w, h)
  \o <<Prep(d, "center_crop", z, <<>>), Prep(d, "scale", Sizes(s + 1), <<>>), Prep(d, "crop", z, <<Rnd(s, 2, 0, 2), Rnd(s, 3, 0, 2)>>),
       Put_(d[1], Ils[1 + (s % 5)], Im(s + 5, w + 1, h + 3)), Prep(d, "center_crop", z, <<>>), Rm_(d[1], Ils[1 + ((s + 1) % 5)]), Prep(d, "scale", z, <<>>), Prep(d, "crop", <<1>>, <<0>>)>>
(* every image replaced by another, and everything done again *)
Replaced(s) ==
  LET d == Choose(s, 1, Dirs) z == Sizes(s) w == Two(z)[1] h == Two(z)[2] pos == <<Rnd(s, 2, 0, 1), Rnd(s, 3, 0, 1)>>
      all == <<Prep(d, "center_crop", z, <<>>), Prep(d, "scale", z, <<>>), Prep(d, "crop", z, pos)>>
      ims(k) == <<Put_(d[1], Ils[1 + (s % 5)], Im(s + k, w + 2 + Rnd(s, 5 + k, 0, 2), h + 2 + Rnd(s, 6 + k, 0, 2))), Put_(d[1], Others_[1 + (s % 6)], Im(s + 1 + k, w + Rnd(s, 7 + k, 0, 2), h + Rnd(s, 8 + k, 0, 2))),
                  Put_(d[1], Ils[1 + ((s + 1) % 5)], Im(s + 2 + k, w + 3, h + 2))>>
  IN ims(0) \o all \o ims(20) \o all \o <<Rm_(d[1], Ils[1 + (s % 5)])>> \o all \o <<ims(40)[1]>> \o all
(* the usual way: scaled first, the results cropped *)
Chain(s) ==
  LET d == Choose(s, 1, Dirs) z == <<Rnd(s, 2, 3, 6), Rnd(s, 3, 3, 6)>> c == <<Rnd(s, 4, 1, z[1]), Rnd(s, 5, 1, z[2])>>
      p == Prep(d, "scale", z, <<>>) f == Folder(p) IN
  Some(d, s, 5, 1, 1) \o <<p, Prep(<<f, f>>, "center_crop", c, <<>>), Prep(<<f, f>>, "crop", <<1, 1>>, <<0, 1>>), Prep(<<f, f \o "/">>, "scale", c, <<>>)>>
Unusable(s) ==
  LET d == Choose(s, 1, Dirs) IN
  Some(d, s, 4, 6, 6) \o <<Prep(d, "scale", <<2, 3, 4>>, <<>>), Prep(d, "center_crop", <<1, 1, 1>>, <<>>), Prep(d, "crop", <<2, 3, 4>>, <<1, 1>>), Prep(d, "crop", <<2, 2>>, <<>>), Prep(d, "crop", <<2>>, <<1, 1, 1>>),
                          Prep(d, "resize", <<2, 2>>, <<>>), Prep(d, "", <<2>>, <<1>>), Prep(d, "Crop", <<2>>, <<1>>), Prep(d, "scale", <<3>>, <<9, 9, 9>>), Prep(d, "center_crop", <<2, 3>>, <<9>>)>>
M == IF Q THEN 4 ELSE 7
GKeys == {<<"centre", w, h>> : w \in 1..(M + 1), h \in 1..(M + 1)} \cup {<<"scale", w, h>> : w \in 1..M, h \in 1..M} \cup {<<"pos", w, h>> : w \in 1..M, h \in 1..M}
         \cup {<<"mixed", i, 0>> : i \in 1..(IF Q THEN 80 ELSE 800)} \cup {<<"chain", i, 0>> : i \in 1..(IF Q THEN 60 ELSE 600)} \cup {<<"replaced", i, 0>> : i \in 1..(IF Q THEN 40 ELSE 400)} \cup {<<"unusable", i, 0>> : i \in 1..(IF Q THEN 10 ELSE 60)}
GCases(ky) ==
  CASE ky[1] = "centre" -> {One_("center_crop", ky[2], ky[3], cw, ch, S0(cw, ch)) : cw \in 1..ky[2], ch \in 1..ky[3]}
    [] ky[1] = "scale" -> {One_("scale", ky[2], ky[3], cw, ch, S0(cw + 9, ch)) : cw \in {1, 3, 5, 8}, ch \in {1, 2, 5, 7}}
    [] ky[1] = "pos" -> {Pos(ky[2], ky[3], cw, ch, x, y, S0(cw + x, ch + y)) : cw \in 1..2, ch \in 1..3, x \in 0..ky[2], y \in 0..ky[3]}
    [] ky[1] = "mixed" -> {Mixed(S0(30, ky[2]))} [] ky[1] = "replaced" -> {Replaced(S0(60, ky[2]))} [] ky[1] = "chain" -> {Chain(S0(40, ky[2]))} [] ky[1] = "unusable" -> {Unusable(S0(50, ky[2]))}
=============================================================================
