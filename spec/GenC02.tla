------------------------------- MODULE GenC02 -------------------------------
(* C02: padding embeds exactly and fills the whole border *)
EXTENDS PicoGen
CONSTANTS Seed, Tier

Amounts == IF Tier = 0 THEN 0..2 ELSE 0..3
(* exhaustive small scope: every shape and every pad vector *)
SmallShapes == {<<h, w>> : h \in 1..2, w \in 1..3}
          \cup {<<b, c, w>> : b \in 1..2, c \in 1..2, w \in 1..3}
          \cup {<<b, c, h, w>> : b \in 1..2, c \in 1..2, h \in 1..2, w \in 1..2}
PadsFor(sh) == IF Len(sh) = 3 THEN {<<l, r>> : l \in 0..3, r \in 0..3}
               ELSE {<<t, l, b, r>> : t \in Amounts, l \in Amounts, b \in Amounts, r \in Amounts}
Inits == {0, 7, -90}

Scen(sh, p, init, g, dirty) ==
  LET psh == PadShape(sh, p) IN
  NewF("x", sh, g)
  \o NewF("d", psh, dirty)
  \o NewF("z", sh, g)
  \o <<PadNew("x", "y", p, init), PadInto("x", "d", p, init), PadInto("z", "d", p, init)>>

(* pseudo-random larger scope *)
NRand == IF Tier = 0 THEN 160 ELSE 1500
RDim(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 6 THEN Rnd(s, i + 50, 1, 5) ELSE IF r < 9 THEN Rnd(s, i + 50, 5, 12) ELSE Rnd(s, i + 50, 12, 40)
RPad(s, i) == LET r == Rnd(s, i, 0, 9) IN IF r < 3 THEN 0 ELSE IF r < 8 THEN Rnd(s, i + 50, 1, 4) ELSE Rnd(s, i + 50, 4, 17)
RandCase(k) ==
  LET s == Seed * 10007 + k
      r == 2 + (k % 3)
      sh == [i \in 1..r |-> IF r = 4 /\ i <= 2 THEN Rnd(s, i, 1, 4) ELSE RDim(s, i)]
      p == [i \in 1..(IF r = 3 THEN 2 ELSE 4) |-> RPad(s, 10 + i)]
      init == Choose(s, 20, <<0, 0, 12, -12, 3, -40, 41, -41, 90, -90, 29>>)
  IN Scen(sh, p, init, Pats(s), Ords(s + 1, -41, 41))
LargeShapes == << <<1, 3, 70, 300>>, <<1, 130, 4, 5>>, <<300, 2, 3>>, <<2, 3, 5000>>, <<600, 17>>, <<17, 600>>, <<70, 2, 2, 3>>, <<2, 260, 3>>, <<1, 2, 190, 181>>, <<2, 2, 17001>>, <<1, 1, 260, 270>>, <<260, 270>> >>
(* borders wider than the tensor, and wider than a byte counts *)
WidePads == << <<(<<1, 2, 3, 2>>), (<<70, 0, 1, 33>>)>>, <<(<<2, 1, 2, 2>>), (<<0, 300, 0, 1>>)>>, <<(<<1, 1, 1, 2>>), (<<1, 0, 300, 0>>)>>, <<(<<1, 2, 2, 1>>), (<<0, 1, 2, 270>>)>>,
               <<(<<2, 3>>), (<<300, 0, 0, 2>>)>>, <<(<<3, 2>>), (<<0, 260, 1, 0>>)>>, <<(<<1, 1>>), (<<20, 65, 33, 129>>)>>, <<(<<1, 2, 4>>), (<<300, 0>>)>>, <<(<<2, 1, 3>>), (<<0, 300>>)>>,
               <<(<<1, 1, 1>>), (<<40000, 33000>>)>> >>
WideCase(k) == Scen(WidePads[k][1], WidePads[k][2], Choose(Seed, k, <<0, 5, -90>>), Ords(Seed + k, -41, 41), Ords(Seed + 9 + k, -41, 41))
LargeCase(k) ==
  LET sh == LargeShapes[k] r == Len(sh)
  IN Scen(sh, IF r = 3 THEN <<2, 1>> ELSE <<1, 3, 2, 0>>, Choose(Seed, k, <<0, 5, -90>>), Ords(Seed + k, -41, 41), Ords(Seed + 9 + k, -41, 41))

GKeys == {<<"s", sh, i>> : sh \in SmallShapes, i \in Inits}
         \cup {<<"r", k>> : k \in 1..NRand} \cup {<<"l", k>> : k \in 1..Len(LargeShapes)} \cup {<<"w", k>> : k \in 1..Len(WidePads)}
GCases(ky) ==
  CASE ky[1] = "s" -> {Scen(ky[2], p, ky[3], Ords(Seed + 3, -40, 41), Ords(Seed + 4, -41, 41)) : p \in PadsFor(ky[2])}
    [] ky[1] = "r" -> {RandCase(ky[2])}
    [] ky[1] = "w" -> {WideCase(ky[2])}
    [] ky[1] = "l" -> {LargeCase(ky[2])}
=============================================================================
