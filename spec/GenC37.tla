------------------------------- MODULE GenC37 -------------------------------
(* C37: the same results whatever the build: a sample of the behaviours of every generator of the runtime,
   replayed on a library compiled as the repository's Makefile does, fully optimised, with its diagnostics
   switched on, without them, and with undefined behaviour trapped *)
EXTENDS PicoGen
CONSTANTS Seed, Tier
P01 == INSTANCE GenC01
P02 == INSTANCE GenC02
P03 == INSTANCE GenC03
P04 == INSTANCE GenC04
P05 == INSTANCE GenC05
P06 == INSTANCE GenC06
P07 == INSTANCE GenC07
P08 == INSTANCE GenC08
P09 == INSTANCE GenC09
P10 == INSTANCE GenC10
P11 == INSTANCE GenC11
P12 == INSTANCE GenC12
P13 == INSTANCE GenC13
P14 == INSTANCE GenC14
P15 == INSTANCE GenC15 WITH Window <- "onnx"
P17 == INSTANCE GenC17
P33 == INSTANCE GenC33
KeysOf(g) == CASE g = 1 -> P01!GKeys [] g = 2 -> P02!GKeys [] g = 3 -> P03!GKeys [] g = 4 -> P04!GKeys [] g = 5 -> P05!GKeys
              [] g = 6 -> P06!GKeys [] g = 7 -> P07!GKeys [] g = 8 -> P08!GKeys [] g = 9 -> P09!GKeys [] g = 10 -> P10!GKeys
              [] g = 11 -> P11!GKeys [] g = 12 -> P12!GKeys [] g = 13 -> P13!GKeys [] g = 14 -> P14!GKeys [] g = 15 -> P15!GKeys
              [] g = 17 -> P17!GKeys [] g = 33 -> P33!GKeys
CasesOf(g, k) == CASE g = 1 -> P01!GCases(k) [] g = 2 -> P02!GCases(k) [] g = 3 -> P03!GCases(k) [] g = 4 -> P04!GCases(k) [] g = 5 -> P05!GCases(k)
              [] g = 6 -> P06!GCases(k) [] g = 7 -> P07!GCases(k) [] g = 8 -> P08!GCases(k) [] g = 9 -> P09!GCases(k) [] g = 10 -> P10!GCases(k)
              [] g = 11 -> P11!GCases(k) [] g = 12 -> P12!GCases(k) [] g = 13 -> P13!GCases(k) [] g = 14 -> P14!GCases(k) [] g = 15 -> P15!GCases(k)
              [] g = 17 -> P17!GCases(k) [] g = 33 -> P33!GCases(k)
Gens == (1..15) \cup {17, 33}
NK == IF Tier = 0 THEN 40 ELSE 400
(* NK of the n elements of a sequence, evenly from the seed on *)
Some(n, s) == IF n <= NK THEN 1..n ELSE {1 + ((((j * n) \div NK) + (Hash(s, Seed) % n)) % n) : j \in 1..NK}
GKeys == UNION {LET ks == SetToSeq(KeysOf(g)) IN {<<g, ks[i]>> : i \in Some(Len(ks), g)} : g \in Gens}
(* windows of an even size are known finding lrn-even-n of C15 *)
Odd(c) == \A i \in 1..Len(c) : (c[i].op = "mk" /\ c[i].layer.kind = "lrn") => c[i].layer.n % 2 = 1
GCases(ky) == LET cs == SetToSeq({c \in CasesOf(ky[1], ky[2]) : Odd(c)}) n == Len(cs) IN
  IF ky[1] = 17 THEN {cs[i] : i \in Some(n, 17)} ELSE {cs[i] : i \in {1 + ((Hash(j, Seed) + j) % n) : j \in IF n = 0 THEN {} ELSE 1..3}}
=============================================================================
