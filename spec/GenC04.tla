------------------------------- MODULE GenC04 -------------------------------
(* C04: concatenation along dimension 1 *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

(* shapes: common dimension 0 and inner dimensions, varying dimension 1 *)
Shape(r, b, c, inner) == CASE r = 2 -> <<b, c>> [] r = 3 -> <<b, c, inner[1]>> [] r = 4 -> <<b, c, inner[1], inner[2]>>
Names == <<"a", "b", "c", "d", "e", "f", "g", "h", "i">>
(* cs: channel counts; reps: which inputs are the same tensor again *)
Scen(r, b, cs, inner, order, s) ==
  LET shs == [i \in 1..Len(cs) |-> Shape(r, b, cs[i], inner)]
      tot == Sum([i \in 1..Len(order) |-> cs[order[i]]])
      osh == Shape(r, b, tot, inner)
  IN FlattenSeq([i \in 1..Len(cs) |-> NewF(Names[i], shs[i], IF i % 2 = 0 THEN Pats(s + i) ELSE Ords(s + i, -41, 41))])
     \o NewF("out", osh, Ords(s + 77, -41, 41))
     \o <<CatA([i \in 1..Len(order) |-> Names[order[i]]], "out", 1)>>
     \o <<FillA(Names[1], Ords(s + 99, 1, 41)), CatA([i \in 1..Len(order) |-> Names[order[i]]], "out", 1)>>
Identity(n) == [i \in 1..n |-> i]

SmallCs == {<<1>>, <<3>>} \cup {<<a, b>> : a \in 1..3, b \in 1..3} \cup {<<a, b, c>> : a \in 1..2, b \in 1..3, c \in 1..2}
Inners(r) == IF r = 2 THEN {<<>>} ELSE IF r = 3 THEN {<<1>>, <<3>>} ELSE {<<1, 1>>, <<2, 3>>, <<3, 1>>}
Orders(n) == {Identity(n)} \cup (IF n = 1 THEN {<<1, 1>>, <<1, 1, 1>>} ELSE IF n = 2 THEN {<<2, 1>>, <<1, 2, 1>>, <<2, 2, 1>>} ELSE {<<3, 1, 2>>, <<1, 2, 3, 1>>})

NRand == IF Tier = 0 THEN 120 ELSE 1200
RandCase(k) ==
  LET s == Seed * 10007 + k
      r == 2 + (k % 3)
      n == Rnd(s, 1, 1, 9)
      cs == [i \in 1..n |-> Rnd(s, 10 + i, 1, IF r = 2 THEN 20 ELSE 6)]
      m == Rnd(s, 2, 1, 8)
      order == IF k % 2 = 0 THEN Identity(n) ELSE [i \in 1..m |-> Rnd(s, 40 + i, 1, n)]
  IN Scen(r, Rnd(s, 3, 1, 5), cs, <<Rnd(s, 4, 1, 7), Rnd(s, 5, 1, 9)>>, order, s)
Large(k) == CASE k = 1 -> Scen(4, 1, <<64, 70>>, <<5, 6>>, <<1, 2>>, Seed)
              [] k = 2 -> Scen(4, 3, <<3, 1, 2>>, <<30, 31>>, <<1, 2, 3>>, Seed)
              [] k = 3 -> Scen(3, 2, <<2, 3>>, <<1500>>, <<2, 1>>, Seed)
              [] k = 4 -> Scen(2, 3, <<1000, 1, 1500>>, <<>>, <<1, 2, 3>>, Seed)
              [] k = 5 -> Scen(2, 40, <<7, 3>>, <<>>, <<1, 2>>, Seed)
              [] k = 6 -> Scen(3, 70, <<2, 1>>, <<3>>, <<1, 2>>, Seed)
              [] k = 7 -> Scen(4, 1, [i \in 1..9 |-> 30], <<2, 2>>, Identity(9), Seed)
              [] k = 8 -> Scen(4, 2, <<2, 1>>, <<110, 120>>, <<1, 2>>, Seed)
              [] k = 9 -> Scen(2, 1, <<66000, 5>>, <<>>, <<1, 2, 1>>, Seed)
              [] k = 10 -> Scen(3, 3, <<2, 2>>, <<6001>>, <<2, 1>>, Seed)

GKeys == {<<"s", r, b, i>> : r \in 2..4, b \in 1..3, i \in Inners(2) \cup Inners(3) \cup Inners(4)}
         \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..10}
GCases(ky) ==
  CASE ky[1] = "s" -> IF ky[4] \in Inners(ky[2])
                      THEN UNION {{Scen(ky[2], ky[3], cs, ky[4], o, Seed) : o \in Orders(Len(cs))} : cs \in SmallCs} ELSE {}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "l" -> {Large(ky[2])}
=============================================================================
