------------------------------- MODULE GenC20 -------------------------------
(* C20: reference input and output data load exactly or are refused *)
EXTENDS PicoFileGen
CONSTANTS Seed, Tier
Put(f, b) == [op |-> "put", file |-> f, b |-> b]
T(id, sh, s) == [op |-> "tnew", id |-> id, sh |-> sh, b |-> Floats(s, Prod(sh))]
Rd(what, f, id) == [op |-> what, file |-> f, id |-> id]
Cuts(what, f, id) == [op |-> "cuts", what |-> what, file |-> f, id |-> id]
Enc(what, sh, s) == LET n == N4(sh) IN IF what = "refin" THEN EncIn(n[2], n[3], n[4], Floats(s, Prod(sh))) ELSE EncOut(Prod(sh), Floats(s, Prod(sh)))
SetAt(f, i, v) == [f EXCEPT ![i] = v]
Bump(f, i, d) == SetAt(f, i, (f[i] + d) % 256)
HugeSizes == << <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<1, 0, 0, 64>>, <<255, 255, 255, 127>>, <<0, 0, 1, 0>>, <<0, 0, 0, 0>> >>
(* damages of a good file f whose size fields start at bytes 5, 9, ... (k of them) *)
Damage(f, k) ==
  LET n == Len(f) IN
  Flat([i \in 1..4 |-> [j \in 1..5 |-> Bump(f, i, <<1, 255, 128, 32, 10>>[j])]])
  \o Flat([i \in 1..4 |-> [j \in 1..4 |-> Bump(f, n - 4 + i, <<1, 255, 128, 32>>[j])]])
  \o Flat([i \in 1..k |-> [j \in 1..4 |-> Bump(f, 4 * i + 1, <<1, 255, 2, 128>>[j])] \o [j \in 1..3 |-> Bump(f, 4 * i + 1 + j, 1)]
            \o [j \in 1..Len(HugeSizes) |-> SubSeq(f, 1, 4 * i) \o HugeSizes[j] \o SubSeq(f, 4 * i + 5, n)]])
  \o (IF k = 4 THEN <<SubSeq(f, 1, 12) \o SubSeq(f, 17, 20) \o SubSeq(f, 13, 16) \o SubSeq(f, 21, n), SubSeq(f, 1, 8) \o SubSeq(f, 13, 16) \o SubSeq(f, 9, 12) \o SubSeq(f, 17, n)>> ELSE <<>>)
  \o <<FCOmagic \o SubSeq(f, 5, n), FCImagic \o SubSeq(f, 5, n), FDmagic \o SubSeq(f, 4, n), SubSeq(f, 2, n), <<10>> \o f, SubSeq(f, 1, n - 4) \o <<0, 101, 110, 100, 10>>,
       SubSeq(f, 1, n - 4), SubSeq(f, 1, n - 8) \o EndMark, SubSeq(f, 1, n - 4) \o <<1, 2, 3, 4>> \o EndMark>>
(* a damage that only swaps equal dimensions changes nothing: the reader of the specification decides *)
Good(what, sh, s) ==
  <<T("x", sh, s + 1), T("z", sh, s + 2), Put("f", Enc(what, sh, s)), Rd(what, "f", "x"), Put("g", Enc(what, sh, s + 3)), Rd(what, "g", "x"), Rd(what, "f", "z"), Rd(what, "f", "x")>>
Once(what, sh, s) == <<[op |-> "tnew", id |-> "x", sh |-> sh, b |-> [i \in 1..(4 * Prod(sh)) |-> 0]], Put("f", Enc(what, sh, s)), Rd(what, "f", "x")>>
Bad(what, sh, s) ==
  LET d == Damage(Enc(what, sh, s), IF what = "refin" THEN 4 ELSE 2) IN
  <<T("x", sh, s + 1), T("z", sh, s + 2)>> \o Flat([i \in 1..Len(d) |-> <<Put("f", d[i]), Rd(what, "f", "x")>>])
  \o <<Rd(what, "missing", "x"), Rd(what, ".", "x"), Rd(what, "no/dir", "x"), Put("f", <<>>), Rd(what, "f", "x"), T("x", sh, s + 4), Put("f", Enc(what, sh, s)), Rd(what, "f", "x")>>
Cut(what, sh, s) == <<T("x", sh, s + 1), T("z", sh, s + 2), Put("f", Enc(what, sh, s)), Cuts(what, "f", "x"), T("x", sh, s + 4), Rd(what, "f", "x")>>
Mismatched(what, sh, s) ==   \* a good file for another tensor
  <<T("x", sh, s + 1), T("z", sh, s + 2)>> \o Flat([i \in 1..6 |-> LET o == [j \in 1..Len(sh) |-> IF j = 1 THEN sh[1] ELSE Rnd(s + i, j, 1, 4)] IN
     <<Put("f", Enc(what, o, s + i)), Rd(what, "f", "x")>>])
WrongRank(what, sh, s) ==
  <<T("x", sh, s + 1), T("z", <<1, 4>>, s + 2), Put("f", IF what = "refin" THEN EncIn(1, 1, Prod(sh), Floats(s, Prod(sh))) ELSE EncOut(Prod(sh), Floats(s, Prod(sh)))),
    Rd(what, "f", "x"), Rd(what, "missing", "x"), Put("g", Enc(what, <<1, 4>>, s)), Rd(what, "g", "z")>>
InShapes == {<<1, w>> : w \in {1, 2, 5, 10}} \cup {<<3, 4>>} \cup {<<1, c, w>> : c \in {1, 3}, w \in {1, 2, 5}} \cup {<<1, c, h, w>> : c \in {1, 2, 3}, h \in {1, 2, 3}, w \in {1, 2, 4}} \cup {<<1, 7, 2, 1>>, <<1, 9, 2>>}
OutShapes == {<<1, n>> : n \in {1, 2, 3, 10, 17}} \cup {<<3, 4>>, <<2, 5>>}
Sets(what) == IF what = "refin" THEN InShapes ELSE OutShapes
Big == {<<"refin", <<1, 3, 30, 20>>>>, <<"refin", <<1, 2, 900>>>>, <<"refin", <<1, 1500>>>>, <<"refout", <<1, 2000>>>>}
       \cup {<<"refin", sh>> : sh \in {<<1, 300, 1, 1>>, <<1, 1, 300, 1>>, <<1, 1, 1, 300>>, <<1, 1025, 2>>, <<1, 2, 1025>>, <<1, 2, 257, 2>>}}
       \cup {<<"refout", <<1, n>>>> : n \in {255, 256, 257, 300}} \cup {<<"refout", <<300, 2>>>>}
       \cup {<<"refin", <<1, 1, 33, 1987>>>>, <<"refin", <<1, 65536>>>>, <<"refout", <<1, 65539>>>>}   \* more than two bytes count

GKeys == {<<k, w>> : k \in {"good", "bad", "cut", "mis"}, w \in {"refin", "refout"}} \cup {<<"rank", w>> : w \in {"refin", "refout"}} \cup {<<"big", b>> : b \in Big}
NVar == IF Tier = 0 THEN 2 ELSE 12
GCases(ky) ==
  CASE ky[1] = "good" -> {Good(ky[2], sh, Seed * 31 + j) : sh \in Sets(ky[2]), j \in 1..(3 * NVar)}
    [] ky[1] = "bad" -> {Bad(ky[2], sh, Seed * 37 + j) : sh \in Sets(ky[2]), j \in 1..NVar}
    [] ky[1] = "cut" -> {Cut(ky[2], sh, Seed) : sh \in Sets(ky[2])}
    [] ky[1] = "mis" -> {Mismatched(ky[2], sh, Seed * 41 + 7 * j) : sh \in Sets(ky[2]), j \in 1..(2 * NVar)}
    [] ky[1] = "rank" -> {WrongRank(ky[2], sh, Seed) : sh \in (IF ky[2] = "refin" THEN {<<1>>, <<4>>, <<12>>} ELSE {<<1>>, <<6>>, <<1, 1, 6>>, <<1, 6, 1, 1>>, <<1, 2, 3, 4>>, <<1, 5, 2>>})}
    [] ky[1] = "big" /\ Prod(ky[2][2]) > 60000 -> {Once(ky[2][1], ky[2][2], Seed)}
    [] ky[1] = "big" -> {Good(ky[2][1], ky[2][2], Seed)}
AllLoad == (key[1] \in {"good", "big"} /\ Len(log) > 0 /\ acts[Len(log)].op \in {"refin", "refout"}) => out.ok
NoneLoads == (key[1] = "rank" /\ Len(log) > 0 /\ acts[Len(log)].op \in {"refin", "refout"} /\ acts[Len(log)].id = "x") => ~out.ok
=============================================================================
