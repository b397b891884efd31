------------------------------- MODULE GenC05 -------------------------------
(* C05: equality = same rank, same dimensions, all elements closer than 0.0001 *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

(* all shapes with at most this many elements, every pair: rank and permutations of dimensions *)
Sh == {<<a>> : a \in {1, 2, 4, 6}} \cup {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 4>>, <<2, 2>>, <<4, 1>>, <<2, 3>>, <<3, 2>>, <<1, 6>>, <<6, 1>>}
   \cup {<<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 1>>, <<1, 2, 2>>, <<2, 2, 1>>, <<2, 1, 2>>, <<1, 2, 3>>, <<1, 3, 2>>}
   \cup {<<1, 1, 1, 1>>, <<1, 1, 1, 2>>, <<1, 1, 2, 1>>, <<1, 2, 1, 1>>, <<2, 1, 1, 1>>, <<1, 1, 2, 2>>, <<1, 2, 2, 1>>, <<1, 1, 2, 3>>, <<1, 1, 3, 2>>, <<1, 2, 1, 3>>, <<2, 1, 3, 1>>}
ShapeS(s1, s2) == NewF("l", s1, Const(3)) \o NewF("r", s2, Const(3)) \o <<EqA("l", "r"), EqA("r", "l"), EqA("l", "l")>>

(* one differing element: every position, every difference around the threshold; unit 2^-20 *)
Deltas == {0, 1, 50, 103, 104, 105, 106, 200, 10486, 1048576, 12000000}
Bases == {0, 1, 105, -105, 1048576, -3145728}
PosS(sh, pos, dl, base) ==
  NewF("l", sh, [Const(base) EXCEPT !.x = -20]) \o NewF("r", sh, [One(pos, base + dl, base) EXCEPT !.x = -20])
  \o <<EqA("l", "r"), EqA("r", "l"), FillA("r", [One(pos, base - dl, base) EXCEPT !.x = -20]), EqA("l", "r"), EqA("r", "l")>>
PosShapes == {<<1>>, <<5>>, <<2, 3>>, <<3, 1>>, <<1, 2, 3>>, <<2, 2, 2>>, <<1, 2, 2, 2>>, <<2, 1, 3, 1>>, <<2, 2, 1, 2>>}

(* magnitudes far from the threshold *)
BigS(sh, s, x) == NewF("l", sh, HX(s, -99, 99, x)) \o NewF("r", sh, HX(s, -99, 99, x)) \o NewF("o", sh, HX(s + 1, -99, 99, x))
                  \o <<EqA("l", "r"), EqA("l", "o"), EqA("o", "r")>>
(* differences at a late position of a large tensor *)
LargeShapes == << <<70000>>, <<3, 3001>>, <<2, 70, 5>>, <<1, 3, 70, 70>>, <<70, 1, 2, 2>>, <<2, 2, 130, 140>>, <<260, 270>>, <<3, 2, 12001>> >>
LateS(sh, pos, dl) == NewF("l", sh, [Ids(0) EXCEPT !.x = -20]) \o NewF("r", sh, [Ids(0) EXCEPT !.x = -20])
      \o <<EqA("l", "r"),
           [op |-> "poke", id |-> "r", at |-> Idx(N4(sh), pos - 1), path |-> "blob", v |-> 0]>>
RandShape(s) == LET r == Rnd(s, 1, 1, 4) IN [i \in 1..r |-> Rnd(s, 10 + i, 1, 6)]
NRand == IF Tier = 0 THEN 300 ELSE 3000
RandCase(k) ==
  LET s == Seed * 10007 + k
      sh == RandShape(s)
      n == Prod(sh)
      same == [k |-> "sq", p |-> TLCEval(GenData(H(s, -3145728, 3145728), n)), m |-> "i", x |-> -20]
      near == [same EXCEPT !.p = TLCEval([i \in 1..n |-> same.p[i] + Rnd(s, i + 500, -104, 104)])]
      pos == Rnd(s, 3, 1, n)
      off == [near EXCEPT !.p[pos] = same.p[pos] + (IF k % 2 = 0 THEN 1 ELSE -1) * Rnd(s, 4, 105, 300)]
  IN NewF("l", sh, same) \o NewF("n", sh, near) \o NewF("o", sh, off)
     \o <<EqA("l", "n"), EqA("n", "l"), EqA("l", "o"), EqA("o", "l"), EqA("n", "n")>>

GKeys == {<<"sh", a>> : a \in Sh} \cup {<<"p", a>> : a \in PosShapes} \cup {<<"b", x>> : x \in {-149, -120, -60, -30, 0, 30, 60, 100, 115}}
         \cup {<<"l", k>> : k \in 1..Len(LargeShapes)} \cup {<<"r", k>> : k \in 1..NRand}
GCases(ky) ==
  CASE ky[1] = "sh" -> {ShapeS(ky[2], b) : b \in Sh}
    [] ky[1] = "p" -> {PosS(ky[2], pos, dl, b) : pos \in 1..Prod(ky[2]), dl \in Deltas, b \in Bases}
    [] ky[1] = "b" -> {BigS(sh, Seed + i, ky[2]) : sh \in PosShapes, i \in 1..3}
    [] ky[1] = "l" -> LET sh == LargeShapes[ky[2]] n == Prod(sh) IN
                      {NewF("l", sh, [One(1, 7, 7) EXCEPT !.x = -20]) \o NewF("r", sh, [One(p, 7 + d, 7) EXCEPT !.x = -20]) \o <<EqA("l", "r"), EqA("r", "l")>>
                         : p \in {1, 2, n \div 2, n - 1, n}, d \in {0, 104, 105}}
    [] ky[1] = "r" -> {RandCase(ky[2])}
=============================================================================
