------------------------------ MODULE GenC37F -------------------------------
(* C37 for the files: a sample of the behaviours of their generators *)
EXTENDS PicoFileGen
CONSTANTS Seed, Tier
P18 == INSTANCE GenC18
P19 == INSTANCE GenC19
P20 == INSTANCE GenC20
P21 == INSTANCE GenC21
P22 == INSTANCE GenC22
P23 == INSTANCE GenC23
P24 == INSTANCE GenC24
KeysOf(g) == CASE g = 18 -> P18!GKeys [] g = 19 -> P19!GKeys [] g = 20 -> P20!GKeys [] g = 21 -> P21!GKeys [] g = 22 -> P22!GKeys [] g = 23 -> P23!GKeys [] g = 24 -> P24!GKeys
CasesOf(g, k) == CASE g = 18 -> P18!GCases(k) [] g = 19 -> P19!GCases(k) [] g = 20 -> P20!GCases(k) [] g = 21 -> P21!GCases(k) [] g = 22 -> P22!GCases(k) [] g = 23 -> P23!GCases(k) [] g = 24 -> P24!GCases(k)
NK == IF Tier = 0 THEN 30 ELSE 300
Some(n, s) == IF n <= NK THEN 1..n ELSE {1 + ((((j * n) \div NK) + (Hash(s, Seed) % n)) % n) : j \in 1..NK}
GKeys == UNION {LET ks == SetToSeq(KeysOf(g)) IN {<<g, ks[i]>> : i \in Some(Len(ks), g)} : g \in 18..24}
GCases(ky) == LET cs == SetToSeq(CasesOf(ky[1], ky[2])) n == Len(cs) IN {cs[i] : i \in {1 + ((Hash(j, Seed) + j) % n) : j \in IF n = 0 THEN {} ELSE 1..2}}
=============================================================================
