------------------------------- MODULE GenC36 -------------------------------
(* C36: checking a model against its records, saving intermediate tensors *)
EXTENDS PicoModelTools
CONSTANTS Seed, Tier
S0(a, b) == (Seed * 9041) + (a * 173) + b
Q == Tier = 0
Shapes == << <<1>>, <<4>>, <<1, 3>>, <<1, 7>>, <<2, 3>>, <<1, 2, 3>>, <<1, 2, 2, 3>>, <<3, 1, 2, 2>> >>
Sh(s, i) == Choose(s, 900 + i, Shapes)
Big(s) == IF s % 3 = 0 THEN 400000 ELSE IF s % 3 = 1 THEN 40000 ELSE 900
T(ty, sh, s) == [sh |-> sh, ty |-> ty, v |-> TLCEval([i \in 1..Prod(sh) |-> LET b == IF ty \in {"f", "d"} THEN Big(s) ELSE 100 IN (Rnd(s, i, 0, 40000) % ((2 * b) + 1)) - b])]
Ty(s, i) == Choose(s, 800 + i, <<"f", "f", "f", "d", "i32", "i64">>)
R(name, t) == [op |-> "rec", name |-> name, t |-> t]
U(name) == [op |-> "unrec", name |-> name]
Dirs == << <<"m/", "m/">>, <<"", "">>, <<"", "./">>, <<"a b/c.d/", "a b/c.d/">> >>
Ck(d, ret) == [op |-> "check", dir |-> d[1], arg |-> d[2], ret |-> ret]
Ins(n, s) == [i \in 1..n |-> R(InN(i - 1), T(Ty(s, i), Sh(s, i), s + i))]
RetOf(n, s) == [i \in 1..n |-> T(Ty(s, 20 + i), Sh(s, 20 + i), s + 50 + i)]
Outs(ret) == [i \in 1..Len(ret) |-> R(OutN(i - 1), ret[i])]
Off(t, k, by) == [t EXCEPT !.v[k] = @ + by]
Flt(t) == t.ty \in {"f", "d"}
(* as recorded; one element of one output apart by so much *)
Steps(t) == IF Flt(t) THEN <<1, -1, 8, -8, 12, -30, 33000, 100000>> ELSE <<8, -8, 9, 1000>>
Near(n, m, s) ==
  LET d == Choose(s, 1, Dirs) ret == RetOf(m, s)
      j == Rnd(s, 2, 1, m) k == IF s % 4 = 0 THEN Prod(ret[j].sh) ELSE Rnd(s, 3, 1, Prod(ret[j].sh))
      by(i) == Steps(ret[j])[i]
  IN Ins(n, s) \o Outs(ret) \o <<Ck(d, ret)>> \o [i \in 1..Len(Steps(ret[j])) |-> Ck(d, [ret EXCEPT ![j] = Off(ret[j], k, by(i))])] \o <<Ck(d, ret)>>
(* values that are no numbers, on either side or both *)
Odd(s) ==
  LET d == Choose(s, 1, Dirs) a == [i \in 1..2 |-> T(Choose(s, 30 + i, <<"f", "f", "d">>), Sh(s, 20 + i), s + i)] j == Rnd(s, 2, 1, 2) k == Rnd(s, 3, 1, Prod(a[j].sh))
      at(v) == [a EXCEPT ![j].v[k] = v]
      odd == <<NaN, Inf, 0 - Inf>>
  IN Ins(1, s) \o Outs(a) \o [i \in 1..3 |-> Ck(d, at(odd[i]))] \o <<Ck(d, a)>> \o FlattenSeq([n \in 1..3 |-> <<R(OutN(j - 1), at(odd[n])[j]), Ck(d, a)>> \o [i \in 1..3 |-> Ck(d, at(odd[i]))]])
(* other shapes, other numbers of outputs *)
Shaped(s) ==
  LET d == Choose(s, 1, Dirs) ret == RetOf(2, s) z == <<T("f", <<1, 5>>, s)>> IN
  Ins(1, s) \o Outs(ret) \o <<Ck(d, ret \o RetOf(1, s + 3)), Ck(d, <<ret[2], ret[1]>>), Ck(d, <<ret[1]>>), Ck(d, <<T("f", <<1, Prod(ret[1].sh) + 1>>, s), ret[2]>>), R(OutN(0), z[1]), U(OutN(1)),
     Ck(d, z), Ck(d, <<T("f", <<5>>, s)>>), Ck(d, <<T("f", <<1, 4>>, s)>>), Ck(d, <<Off(z[1], 5, 9)>>)>>
(* more than ten inputs and outputs: numbers, not names, give the order *)
Many(s) == LET d == Choose(s, 1, Dirs) n == Rnd(s, 2, 10, 13) ret == [i \in 1..n |-> T("f", <<1, 2>>, s + i)] IN
  [i \in 1..n |-> R(InN(i - 1), T("f", <<1, 2>>, s + 70 + i))] \o Outs(ret) \o <<Ck(d, ret), Ck(d, [ret EXCEPT ![n] = Off(@, 2, 40)]), Ck(d, [ret EXCEPT ![3] = Off(@, 1, -40)])>>
(* the records change between checks *)
Changing(s) == LET d == Choose(s, 1, Dirs) a == RetOf(2, s) b == [a EXCEPT ![2] = Off(@, 1, 500)] IN
  Ins(3, s) \o Outs(a) \o <<Ck(d, a), Ck(d, b), R(OutN(1), b[2]), Ck(d, a), Ck(d, b), U(InN(2)), Ck(d, b), R(InN(1), T("f", <<2, 2>>, s + 99)), Ck(d, b), U(OutN(1)), Ck(d, b), R(OutN(1), a[2]), Ck(d, a)>>

(* ---- saving ---- *)
Names == << [n |-> "conv1", safe |-> "conv1"], [n |-> "fc8_1", safe |-> "fc8_1"], [n |-> "a/b:0", safe |-> "a_b_0"], [n |-> "x.y.z", safe |-> "x_y_z"], [n |-> "/lead", safe |-> "_lead"],
            [n |-> "resnet/block.1/add:0", safe |-> "resnet_block_1_add_0"], [n |-> "12", safe |-> "12"], [n |-> "end.", safe |-> "end_"], [n |-> "a-b c", safe |-> "a-b c"] >>
Stems == << <<"net", ".onnx">>, <<"net", ".v2.onnx">>, <<"my-model_1", ".onnx">> >>
InShapes == << <<1, 2, 3, 3>>, <<1, 5>>, <<1, 2, 6>>, <<2, 1, 2, 2>>, <<3>>, <<1, 1, 1, 1>> >>
Sv(s, k, d) ==
  LET st == Choose(s, 6, Stems) from == Rnd(s, 7, 0, Len(Names) - k) IN
  [op |-> "save", dir |-> d[1], arg |-> d[2], stem |-> st[1], rest |-> st[2], sh |-> Choose(s, 8, InShapes), names |-> [i \in 1..k |-> Names[from + i]],
   vals |-> [i \in 1..k |-> T("f", Sh(s, 40 + i), s + i)]]
Saves(s) == LET d == Choose(s, 1, Dirs) IN <<Sv(s, Rnd(s, 2, 1, 4), d), Sv(s + 1, Rnd(s, 3, 1, 5), d), Sv(s + 2, 1, d)>>
Both(s) == LET d == Choose(s, 1, Dirs) a == RetOf(1, s) IN Ins(2, s) \o Outs(a) \o <<Sv(s, 2, d), Ck(d, a), Sv(s + 1, 3, d), Ck(d, <<Off(a[1], 1, 50)>>)>>
K == IF Q THEN 1 ELSE 8
GKeys == {<<"near", n, m>> : n \in 1..3, m \in 1..3} \cup {<<"shaped", i, 0>> : i \in 1..(12 * K)} \cup {<<"many", i, 0>> : i \in 1..(8 * K)} \cup {<<"changing", i, 0>> : i \in 1..(12 * K)}
         \cup {<<"saves", i, 0>> : i \in 1..(60 * K)} \cup {<<"odd", i, 0>> : i \in 1..(12 * K)} \cup {<<"both", i, 0>> : i \in 1..(12 * K)}
GCases(ky) ==
  CASE ky[1] = "near" -> {Near(ky[2], ky[3], S0(ky[2] * 3 + ky[3], i)) : i \in 1..(10 * K)}
    [] ky[1] = "shaped" -> {Shaped(S0(20, ky[2]))} [] ky[1] = "many" -> {Many(S0(30, ky[2]))} [] ky[1] = "changing" -> {Changing(S0(40, ky[2]))}
    [] ky[1] = "saves" -> {Saves(S0(50, ky[2]))} [] ky[1] = "odd" -> {Odd(S0(70, ky[2]))} [] ky[1] = "both" -> {Both(S0(60, ky[2]))}
=============================================================================
