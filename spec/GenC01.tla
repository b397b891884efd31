------------------------------- MODULE GenC01 -------------------------------
(* C01: zeroed construction, shape queries, row-major addressing through every access path *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

Paths == <<"multi", "chan", "flat", "blob">>
Poke(id, at, path, v) == [op |-> "poke", id |-> id, at |-> at, path |-> path, v |-> v]
Peek(id, at, path) == [op |-> "peek", id |-> id, at |-> at, path |-> path]
MetaA(id) == [op |-> "meta", id |-> id]

Dm == IF Tier = 0 THEN 1..3 ELSE 1..4
SmallShapes == {<<a>> : a \in 1..9} \cup {<<a, b>> : a \in 1..4, b \in 1..4}
   \cup {<<a, b, c>> : a \in 1..3, b \in 1..3, c \in 1..3}
   \cup {<<a, b, c, d>> : a \in Dm, b \in Dm, c \in Dm, d \in Dm}

(* write every element through one path, then read every element through all paths *)
Whole(sh, pi) ==
  LET n == N4(sh) cnt == Prod(sh) IN
  <<New("by", <<3>>), New("x", sh), MetaA("x"), FillA("by", Ids(900))>>
  \o [k \in 1..cnt |-> Poke("x", Idx(n, cnt - k), Paths[pi], 1000 + k)]
  \o [k \in 1..(cnt * 3) |-> Peek("x", Idx(n, (k - 1) \div 3), Paths[1 + ((pi + ((k - 1) % 3)) % 4)])]
  \o <<New("y", sh), Free("x"), New("z", sh), MetaA("z"), Free("y"), Free("z")>>

NRand == IF Tier = 0 THEN 60 ELSE 400
RDim(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 5 THEN Rnd(s, i + 50, 1, 5) ELSE IF r < 8 THEN Rnd(s, i + 50, 5, 12) ELSE Rnd(s, i + 50, 12, 21)
Spots(sh, s, m) ==
  LET n == N4(sh) cnt == Prod(sh)
      at(k) == Idx(n, IF k = 1 THEN cnt - 1 ELSE IF k = 2 THEN 0 ELSE Rnd(s, k + 200, 0, 40000) % cnt)
  IN <<New("x", sh), MetaA("x"), FillA("x", H(s, -50, 50))>>
     \o [k \in 1..m |-> Poke("x", at(k), Paths[1 + ((k + s) % 4)], 5000 + k)]
     \o [k \in 1..(4 * m) |-> Peek("x", at(1 + ((k - 1) \div 4)), Paths[1 + (k % 4)])]
RandCase(k) == LET s == Seed * 10007 + k r == 1 + (k % 4)
               IN Spots([i \in 1..r |-> RDim(s, i)], s, 8)
LargeShapes == << <<70000>>, <<260, 270>>, <<300, 1>>, <<1, 300>>, <<270, 3, 5>>, <<3, 300, 5>>, <<2, 2, 17000>>,
                  <<1, 300, 3, 3>>, <<260, 2, 3, 2>>, <<2, 3, 257, 5>>, <<2, 3, 4, 300>>, <<1, 1, 270, 260>>, <<2, 3, 120, 130>>, <<3, 4, 6001>>, <<300, 2, 11, 12>>, <<1, 300, 15, 17>> >>
LargeCase(k) == Spots(LargeShapes[k], Seed + k, 4)

GKeys == {<<"s", sh, i>> : sh \in SmallShapes, i \in 1..4}
         \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..Len(LargeShapes)}
GCases(ky) ==
  CASE ky[1] = "s" -> {Whole(ky[2], ky[3])}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> {LargeCase(ky[2])}
=============================================================================
