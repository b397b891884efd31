----------------------------- MODULE PicoTensor -----------------------------
(***************************************************************************)
(* Tensors of pico-cnn as mathematical values.                             *)
(*                                                                         *)
(* A tensor is a record                                                    *)
(*    sh : shape, a sequence of 1..4 positive naturals                     *)
(*    d  : contents in row-major order, a sequence of Prod(sh) integers    *)
(*    m  : how integers are to be read                                     *)
(*         "i" numbers (see x and q)                                       *)
(*         "o" ordinals into a fixed strictly increasing table of floats   *)
(*             (0 is +0, -k is the negation of k, special patterns > 99)   *)
(*         "l" multiples of (ln 2)/4                                       *)
(*    x  : exponent, element i is d[i] * 2^x                               *)
(*    q  : <<>> or per element denominators, element i is d[i]/q[i] * 2^x  *)
(*    xs : <<>> or per element additional exponents                        *)
(*    p, qd : with p # 4 element i is d[i] * (qd/q[i])^(p/4) * 2^x         *)
(*    off : (mode "l") integer added to every element                      *)
(*    t  : relative tolerance of the implementation, in millionths         *)
(*    a  : absolute tolerance of the implementation, in millionths of 2^x  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, SequencesExt, TLC

Prod(s) == FoldFunction(LAMBDA a, b : a * b, 1, s)
Sum(f)  == FoldFunction(LAMBDA a, b : a + b, 0, f)
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
AbsV(a) == IF a < 0 THEN 0 - a ELSE a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Numel(t) == Len(t.d)
Rank(t)  == Len(t.sh)

(* Batch, channel, height, width as the library reads a shape. *)
N4(sh) == CASE Len(sh) = 1 -> <<1, 1, 1, sh[1]>>
            [] Len(sh) = 2 -> <<1, 1, sh[1], sh[2]>>
            [] Len(sh) = 3 -> <<sh[1], sh[2], 1, sh[3]>>
            [] Len(sh) = 4 -> sh

Mk(sh, d)        == [sh |-> sh, d |-> d, m |-> "i", x |-> 0, q |-> <<>>, xs |-> <<>>, p |-> 4, qd |-> 1,
                     off |-> 0, t |-> 0, a |-> 0]
Zeros(sh)        == Mk(sh, TLCEval([i \in 1..Prod(sh) |-> 0]))
With(t, d)       == [t EXCEPT !.d = d]
IsTensor(t)      == /\ Len(t.sh) \in 1..4
                    /\ \A i \in 1..Len(t.sh) : t.sh[i] > 0
                    /\ Len(t.d) = Prod(t.sh)
                    /\ t.q = <<>> \/ Len(t.q) = Len(t.d)
                    /\ t.xs = <<>> \/ Len(t.xs) = Len(t.d)

(* Row-major address (0-based) of element (b,c,i,j) of a tensor with N4 = n *)
Addr(n, b, c, i, j) == ((b * n[2] + c) * n[3] + i) * n[4] + j
At(t, n, b, c, i, j) == t.d[Addr(n, b, c, i, j) + 1]

(* Inverse of Addr *)
Idx(n, k) == <<k \div (n[2]*n[3]*n[4]), (k \div (n[3]*n[4])) % n[2], (k \div n[4]) % n[3], k % n[4]>>

(* A sequence of Prod(n) values from their coordinates *)
Build(n, F(_,_,_,_)) ==
  TLCEval([k \in 1..(n[1]*n[2]*n[3]*n[4]) |->
     F((k-1) \div (n[2]*n[3]*n[4]), ((k-1) \div (n[3]*n[4])) % n[2], ((k-1) \div n[4]) % n[3], (k-1) % n[4])])

(***************************************************************************)
(* Pseudo-random integers (all arithmetic stays within 32 bits).           *)
(***************************************************************************)
R1(i, s) == (((i % 400000) * 1103) + ((s % 100000) * 3571) + 12345) % 46307
R2(r, s) == ((r * r) + (17 * r) + (s % 100000)) % 46307
R3(r, s) == ((r * r) + (31 * r) + ((7 * (s % 100000)) % 46307)) % 46307
Hash(i, s) == LET a == R1(i, s) b == R2(a, s) IN R3(b, i % 50000)
Rnd(s, i, lo, hi) == lo + (Hash(i, s) % ((hi - lo) + 1))
Choose(s, i, seq) == seq[1 + (Hash(i, s) % Len(seq))]

(* Contents generators: how a test tensor is filled *)
GenData(g, n) ==
  CASE g.k = "h"   -> [i \in 1..n |-> Rnd(g.s, i, g.lo, g.hi)]
    [] g.k = "id"  -> [i \in 1..n |-> i + g.s]
    [] g.k = "rev" -> [i \in 1..n |-> g.s - i]
    [] g.k = "c"   -> [i \in 1..n |-> g.s]
    [] g.k = "pick" -> [i \in 1..n |-> Choose(g.s, i, g.p)]
    [] g.k = "one" -> [i \in 1..n |-> IF i = g.s THEN g.hi ELSE g.lo]
    [] g.k = "sq"  -> g.p
H(s, lo, hi) == [k |-> "h", s |-> s, lo |-> lo, hi |-> hi, m |-> "i", x |-> 0]
HX(s, lo, hi, x) == [k |-> "h", s |-> s, lo |-> lo, hi |-> hi, m |-> "i", x |-> x]
Ids(s)       == [k |-> "id", s |-> s, m |-> "i", x |-> 0]
Rev(s)       == [k |-> "rev", s |-> s, m |-> "i", x |-> 0]
Const(v)     == [k |-> "c", s |-> v, m |-> "i", x |-> 0]
Ords(s, lo, hi) == [k |-> "h", s |-> s, lo |-> lo, hi |-> hi, m |-> "o", x |-> 0]
OrdSpecials == <<0, 1, -1, 2, -3, 12, -12, 40, -40, 41, -41, 90, -90, 200, 201, 202>>
Pats(s)      == [k |-> "pick", s |-> s, p |-> OrdSpecials, m |-> "o", x |-> 0]
Latt(s, lo, hi, off) == [k |-> "h", s |-> s, lo |-> lo, hi |-> hi, m |-> "l", x |-> 0, off |-> off]
Sq(p)        == [k |-> "sq", p |-> p, m |-> "i", x |-> 0]
One(pos, v, rest) == [k |-> "one", s |-> pos, hi |-> v, lo |-> rest, m |-> "i", x |-> 0]

Fill(t, g) == [Mk(t.sh, TLCEval(GenData(g, Len(t.d)))) EXCEPT !.m = g.m, !.x = g.x,
                                                              !.off = IF "off" \in DOMAIN g THEN g.off ELSE 0]

(***************************************************************************)
(* Tensor operations                                                       *)
(***************************************************************************)
(* Padding as <<top, left, bottom, right>> whatever the rank *)
P4(rank, p) == IF p = <<>> THEN <<0, 0, 0, 0>>
               ELSE IF rank = 3 THEN <<0, p[1], 0, p[2]>> ELSE p

PadShape(sh, p) ==
  LET q == P4(Len(sh), p) IN
  CASE Len(sh) = 2 -> <<sh[1] + q[1] + q[3], sh[2] + q[2] + q[4]>>
    [] Len(sh) = 3 -> <<sh[1], sh[2], sh[3] + q[2] + q[4]>>
    [] Len(sh) = 4 -> <<sh[1], sh[2], sh[3] + q[1] + q[3], sh[4] + q[2] + q[4]>>

Pad(t, p, init) ==
  LET n == N4(t.sh)
      q == P4(Rank(t), p)
      s2 == PadShape(t.sh, p)
      F(b, c, i, j) == IF /\ i >= q[1] /\ i < q[1] + n[3]
                          /\ j >= q[2] /\ j < q[2] + n[4]
                       THEN At(t, n, b, c, i - q[1], j - q[2]) ELSE init
  IN [t EXCEPT !.sh = s2, !.d = Build(N4(s2), F)]

Copy(src, dst) == [src EXCEPT !.sh = dst.sh]   \* element counts agree

AddT(a, b)  == With(a, TLCEval([i \in 1..Len(a.d) |-> a.d[i] + b.d[i]]))

AddChannel(a, b, bi, ci) ==
  LET n == N4(a.sh) sz == n[3] * n[4]
      lo == (bi * n[2] + ci) * sz
  IN With(a, TLCEval([i \in 1..Len(a.d) |-> IF i > lo /\ i <= lo + sz THEN a.d[i] + b.d[i] ELSE a.d[i]]))

(* multiplication by the factor fn / fd; fd is a power of two 2^fx *)
MulT(src, dst, fn, fx) == [src EXCEPT !.sh = dst.sh, !.x = src.x - fx,
                                      !.d = TLCEval([i \in 1..Len(src.d) |-> src.d[i] * fn])]

(* Concatenation along dimension 1 (0-based) of a sequence of tensors *)
RECURSIVE Locate(_, _, _)
Locate(ts, p, k) == IF p < ts[k].sh[2] THEN <<k, p>> ELSE Locate(ts, p - ts[k].sh[2], k + 1)
ConcatShape(ts) == [ts[1].sh EXCEPT ![2] = Sum([k \in 1..Len(ts) |-> ts[k].sh[2]])]
Concat(ts) ==
  LET sh == ConcatShape(ts)
      inner == Prod([k \in 1..(Len(sh) - 2) |-> sh[k + 2]])
      El(k) == LET o == k \div (sh[2] * inner)
                   p == (k \div inner) % sh[2]
                   r == k % inner
                   l == Locate(ts, p, 1)
                   u == ts[l[1]]
               IN u.d[(o * u.sh[2] + l[2]) * inner + r + 1]
  IN [ts[1] EXCEPT !.sh = sh, !.d = TLCEval([k \in 1..Prod(sh) |-> El(k - 1)])]

(* Equality with tolerance 0.0001: both tensors share the exponent x <= 0 *)
CloseEnough(u, v, x) == \/ u = v
                        \/ /\ x < 0
                           /\ AbsV(u - v) < 100000
                           /\ x < -30 \/ AbsV(u - v) * 10000 < Pow2(0 - x)
EqT(a, b) == /\ a.sh = b.sh
             /\ \A i \in 1..Len(a.d) : CloseEnough(a.d[i], b.d[i], a.x)
=============================================================================
