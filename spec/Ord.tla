--------------------------------- MODULE Ord --------------------------------
(* Comparison of composite values (property C24). A shape describes a value:       *)
(*   "i" an integer; "d" a floating point number, where 99 stands for NaN;         *)
(*   <<"t", <<shapes>>>> a pair or tuple; <<"n", shape>> an optional value, <<>>   *)
(*   or <<v>>; <<"s", shape>> a sequence.                                          *)
(* The order of two values is "lt", "eq", "gt" or "un" (incomparable).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Ints, Floats, SeqLen, Laws
VARIABLES st, ret, op
vars == <<st, ret, op>>

I == <<"i">>
D == <<"d">>
T(s) == <<"t", s>>
N(s) == <<"n", s>>
S(s) == <<"s", s>>
Shape(k) == CASE k = "ii" -> T(<<I, I>>) [] k = "id" -> T(<<I, D>>) [] k = "di" -> T(<<D, I>>) [] k = "dd" -> T(<<D, D>>)
              [] k = "t0" -> T(<<>>) [] k = "t1" -> T(<<D>>) [] k = "idi" -> T(<<I, D, I>>) [] k = "iii" -> T(<<I, I, I>>) [] k = "iiii" -> T(<<I, I, I, I>>)
              [] k = "ni" -> N(I) [] k = "nd" -> N(D) [] k = "nid" -> N(T(<<I, D>>)) [] k = "tn" -> T(<<N(I), N(D)>>) [] k = "pt" -> T(<<T(<<I, D>>), N(I)>>)
              [] k = "nn" -> N(N(I))
              [] k = "si" -> S(I) [] k = "sd" -> S(D) [] k = "sp" -> S(T(<<I, I>>)) [] k = "spd" -> S(T(<<I, D>>)) [] k = "sn" -> S(N(I)) [] k = "ss" -> S(S(I))
              [] k = "tsi" -> T(<<S(I), I>>)
Flip(c) == CASE c = "lt" -> "gt" [] c = "gt" -> "lt" [] OTHER -> c
RECURSIVE Cmp(_, _, _), Lex(_, _, _)
\* F gives the shape at each position; the first difference decides, a proper prefix comes first
Lex(sh, a, b) ==
    IF a = <<>> THEN (IF b = <<>> THEN "eq" ELSE "lt")
    ELSE IF b = <<>> THEN "gt"
    ELSE LET h == IF sh[1] = "t" THEN Head(sh[2]) ELSE sh[2]
             c == Cmp(h, Head(a), Head(b)) IN
         IF c # "eq" THEN c ELSE Lex(IF sh[1] = "t" THEN T(Tail(sh[2])) ELSE sh, Tail(a), Tail(b))
Cmp(sh, a, b) ==
    IF sh[1] = "i" THEN (IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt")
    ELSE IF sh[1] = "d" THEN (IF a = 99 \/ b = 99 THEN "un" ELSE IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt")
    ELSE Lex(sh, a, b)
\* equality on its own: same structure, equal parts
RECURSIVE Eq(_, _, _)
Eq(sh, a, b) ==
    IF sh[1] = "i" THEN a = b ELSE IF sh[1] = "d" THEN a = b /\ a # 99
    ELSE Len(a) = Len(b) /\ \A j \in DOMAIN a : Eq(IF sh[1] = "t" THEN sh[2][j] ELSE sh[2], a[j], b[j])

\* o = <<"cmp", key, a, b, form of a, form of b>>: the three-way result, equality where the type has it (else -1), and the reverse
Do(o) == LET sh == Shape(o[2]) c == Cmp(sh, o[3], o[4]) IN st' = st /\ ret' = <<c, IF sh[1] = "s" THEN -1 ELSE IF Eq(sh, o[3], o[4]) THEN 1 ELSE 0, Flip(c)>>
Start == 0
Reset(e) == st' = Start /\ ret' = <<"ok">>
Match(e) == e.r = ret' /\ (e.o[1] = "reset" => e.left = 0)

RECURSIVE Values(_), Prod(_)
Prod(s) == IF s = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Values(Head(s)), y \in Prod(Tail(s))}
Values(sh) == CASE sh[1] = "i" -> Ints [] sh[1] = "d" -> Floats [] sh[1] = "t" -> Prod(sh[2])
                [] sh[1] = "n" -> {<<>>} \cup {<<v>> : v \in Values(sh[2])}
                [] sh[1] = "s" -> UNION {[1..k -> Values(sh[2])] : k \in 0..SeqLen}
Init == \E k \in Keys : \E a \in Values(Shape(k)), b \in Values(Shape(k)) : st = <<k, a, b>> /\ ret = <<"ok">> /\ op = <<"init">>
Next == op[1] = "init" /\ op' = <<"cmp", st[1], st[2], st[3]>> /\ ret' = ret /\ st' = st
Spec == Init /\ [][Next]_vars
View == vars
Emit == PrintT("EDGE " \o ToJson(<<0, op', 0>>))
Sh == Shape(st[1])
Total == Cmp(Sh, st[2], st[3]) \in {"lt", "eq", "gt", "un"}
Antisymmetric == Cmp(Sh, st[3], st[2]) = Flip(Cmp(Sh, st[2], st[3]))
Agree == (Cmp(Sh, st[2], st[3]) = "eq") <=> Eq(Sh, st[2], st[3])
Transitive == Laws => \A c \in Values(Sh) :
    LET x == Cmp(Sh, st[2], st[3]) y == Cmp(Sh, st[3], c) z == Cmp(Sh, st[2], c) IN
    /\ (x = "lt" /\ y \in {"lt", "eq"}) => z = "lt"
    /\ (x = "eq" /\ y # "un") => z = y
    /\ (x = "eq" /\ y = "eq") => z = "eq"
=============================================================================
