------------------------------- MODULE GenC24 -------------------------------
(* C24: JPEG images decode into blue, green and red planes *)
EXTENDS PicoFileGen
CONSTANTS Seed, Tier
Bounds == << <<0, 1, 0>>, <<-1, 1, 0>>, <<0, 255, 0>>, <<-128, 127, 0>>, <<1, 3, -1>>, <<-5, -2, 0>>, <<0, 0, 0>>, <<-3, 100, -5>>, <<7, 1000, 6>> >>
PutJ(f, h, w, mode, prog, s) ==
  [op |-> "putjpeg", file |-> f, h |-> h, w |-> w, mode |-> mode, prog |-> prog,
   px |-> [i \in 1..(((h + 7) \div 8) * ((w + 7) \div 8)) |-> IF Hash(i, s) % 5 = 0 THEN Choose(s, i, << <<0, 0, 0>>, <<255, 255, 255>>, <<255, 0, 0>>, <<0, 255, 0>>, <<0, 0, 255>>, <<1, 128, 254>> >>)
                                                                ELSE <<Hash(3 * i, s) % 256, Hash(3 * i + 1, s) % 256, Hash(3 * i + 2, s) % 256>>]]
Rd(f, b) == [op |-> "rjpeg", file |-> f, lo |-> b[1], hi |-> b[2], x |-> b[3]]
Scen(h, w, mode, prog, s) == <<PutJ("j", h, w, mode, prog, s), Rd("j", Choose(s, 1, Bounds)), Rd("j", Bounds[3]), Rd("j", Choose(s, 2, Bounds))>>
Errors == <<Rd("missing", Bounds[1]), Rd("no/dir", Bounds[2])>> \o Scen(3, 5, "rgb", FALSE, Seed)
Sizes == {1, 2, 7, 8, 9, 16, 17, 30}
NV == IF Tier = 0 THEN 1 ELSE 6
GKeys == {<<"s", h, w>> : h \in Sizes, w \in Sizes} \cup {<<"err">>} \cup {<<"big", k>> : k \in 1..8}
GCases(ky) ==
  CASE ky[1] = "err" -> {Errors}
    [] ky[1] = "big" -> (CASE ky[2] = 1 -> {Scen(100, 3, "rgb", FALSE, Seed)} [] ky[2] = 2 -> {Scen(3, 300, "ycc", TRUE, Seed)} [] ky[2] = 3 -> {Scen(64, 50, "grey", FALSE, Seed)}
                           [] ky[2] = 4 -> {<<PutJ("j", 1, 22000, "rgb", FALSE, Seed), Rd("j", Bounds[3])>>} [] ky[2] = 5 -> {<<PutJ("j", 22000, 1, "grey", FALSE, Seed), Rd("j", Bounds[3])>>}
                           [] ky[2] = 6 -> {<<PutJ("j", 260, 257, "rgb", FALSE, Seed), Rd("j", Bounds[3])>>} [] ky[2] = 7 -> {<<PutJ("j", 1, 33000, "grey", FALSE, Seed), Rd("j", Bounds[3])>>} [] ky[2] = 8 -> {<<PutJ("j", 33000, 1, "rgb", FALSE, Seed), Rd("j", Bounds[1])>>})
    [] OTHER -> {Scen(ky[2], ky[3], mode, prog, Seed * 83 + 40 * ky[2] + ky[3] + j) : mode \in {"rgb", "grey", "ycc"}, prog \in BOOLEAN, j \in 1..NV}
=============================================================================
