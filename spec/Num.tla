--------------------------------- MODULE Num --------------------------------
(* Integers as text and case conversion (property C14). TLC has 32-bit numbers,   *)
(* so an integer is written <<sign, limbs>>: 0 or 1 for negative and limbs of     *)
(* four decimal digits, most significant first, without leading zero limbs (zero  *)
(* is <<0, <<0>>>>). Texts are sequences of character codes; a range is a pair    *)
(* of such integers.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Codes, MaxLen, Small     \* for the model: characters, length, numbers -Small..Small
VARIABLES st, ret, op
vars == <<st, ret, op>>

Digit(c) == c >= 48 /\ c <= 57
Four(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN Strip(Tail(s)) ELSE s
RECURSIVE Digits(_)
Digits(l) == IF l = <<>> THEN <<>> ELSE Four(Head(l)) \o Digits(Tail(l))
\* the canonical decimal form
Fmt(n) == (IF n[1] = 1 THEN <<45>> ELSE <<>>) \o Strip(Digits(n[2]))
\* canonical: an optional minus, no leading zero, no negative zero, nothing else
Body(t) == IF t # <<>> /\ Head(t) = 45 THEN Tail(t) ELSE t
Canonical(t) == LET b == Body(t) IN
    /\ b # <<>> /\ \A i \in DOMAIN b : Digit(b[i])
    /\ b[1] = 48 => t = <<48>>
RECURSIVE Limbs(_)
Limbs(b) == LET n == Len(b) k == IF n % 4 = 0 THEN 4 ELSE n % 4
                V(i) == b[i] - 48 IN
    IF b = <<>> THEN <<>>
    ELSE <<(CASE k = 1 -> V(1) [] k = 2 -> 10 * V(1) + V(2) [] k = 3 -> 100 * V(1) + 10 * V(2) + V(3)
              [] k = 4 -> 1000 * V(1) + 100 * V(2) + 10 * V(3) + V(4))>> \o Limbs(SubSeq(b, k + 1, n))
Value(t) == <<IF Head(t) = 45 THEN 1 ELSE 0, Limbs(Body(t))>>
\* order of integers
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLe(Tail(a), Tail(b))
MagLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLe(a, b)
Le(a, b) == IF a[1] # b[1] THEN a[1] > b[1] ELSE IF a[1] = 0 THEN MagLe(a[2], b[2]) ELSE MagLe(b[2], a[2])
Range(k) == CASE k = "i32" -> <<<<1, <<21, 4748, 3648>>>>, <<0, <<21, 4748, 3647>>>>>>
              [] k = "u32" -> <<<<0, <<0>>>>, <<0, <<42, 9496, 7295>>>>>>
              [] k = "i64" -> <<<<1, <<922, 3372, 368, 5477, 5808>>>>, <<0, <<922, 3372, 368, 5477, 5807>>>>>>
              [] k = "u64" -> <<<<0, <<0>>>>, <<0, <<1844, 6744, 737, 955, 1615>>>>>>
Within(n, r) == Le(r[1], n) /\ Le(n, r[2])
Parses(k, t) == Canonical(t) /\ Within(Value(t), Range(k))

(* ---------------------------- decimal fractions -------------------------- *)
\* plain decimal notation: a sign, digits with at most one point among them, at least one digit.
\* (Exponents, hexadecimal and named values are accepted too; no text here contains their letters.)
Unsigned(t) == IF t # <<>> /\ Head(t) \in {43, 45} THEN Tail(t) ELSE t
Points(t) == {i \in DOMAIN t : t[i] = 46}
Plain(t) == LET b == Unsigned(t) IN
    /\ \A i \in DOMAIN b : Digit(b[i]) \/ b[i] = 46
    /\ Cardinality(Points(b)) <= 1
    /\ \E i \in DOMAIN b : Digit(b[i])
IntPart(b) == IF Points(b) = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in Points(b) : TRUE) - 1)
FracPart(b) == IF Points(b) = {} THEN <<>> ELSE SubSeq(b, (CHOOSE i \in Points(b) : TRUE) + 1, Len(b))
RECURSIVE StripEnd(_), StripAll(_)
StripEnd(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripAll(s) == IF s # <<>> /\ Head(s) = 48 THEN StripAll(Tail(s)) ELSE s
\* within what a double and six decimals keep exactly (and not a negative zero)
Exact(t) == LET b == Unsigned(t) i == StripAll(IntPart(b)) f == StripEnd(FracPart(b)) IN
    /\ IF f = <<>> THEN Len(i) <= 15 ELSE Len(i) <= 9 /\ Len(f) <= 6
    /\ Head(t) = 45 => i \o f # <<>>
\* the shortest notation of the same number
Shortest(t) == LET b == Unsigned(t) i == StripAll(IntPart(b)) f == StripEnd(FracPart(b)) IN
    (IF Head(t) = 45 THEN <<45>> ELSE <<>>) \o (IF i = <<>> THEN <<48>> ELSE i) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f)

(* -------------------------------- case ----------------------------------- *)
\* blocks of letters with a counterpart at a fixed distance: <<first upper, last upper, distance>>;
\* every language knows the first; the others are known to wide characters in a Unicode language environment
Ascii == {<<65, 90, 32>>}
Wide == Ascii \cup {<<192, 214, 32>>, <<216, 222, 32>>, <<913, 929, 32>>, <<931, 939, 32>>, <<1024, 1039, 80>>, <<1040, 1071, 32>>, <<1329, 1366, 48>>, <<66560, 66599, 40>>}
Blocks(e) == IF e = "uni" THEN Wide ELSE Ascii
Lower(e, c) == LET B == {b \in Blocks(e) : c >= b[1] /\ c <= b[2]} IN IF B = {} THEN c ELSE c + (CHOOSE b \in B : TRUE)[3]
Upper(e, c) == LET B == {b \in Blocks(e) : c - b[3] >= b[1] /\ c - b[3] <= b[2]} IN IF B = {} THEN c ELSE c - (CHOOSE b \in B : TRUE)[3]
Map(F(_), t) == [i \in DOMAIN t |-> F(t[i])]

Val(v) == st' = st /\ ret' = v
Do(o) ==
    CASE o[1] = "fmt" -> Val(<<"text", Fmt(<<o[4], o[5]>>)>>)
      [] o[1] = "parse" -> Val(IF Parses(o[3], o[4]) THEN <<"ok", Value(o[4])>> ELSE <<"no">>)
      [] o[1] = "value" -> Val(<<"ok", IF Parses(o[3], o[4]) THEN Value(o[4]) ELSE <<0, <<0>>>>>>)
      [] o[1] = "fparse" -> Val(IF Plain(o[4]) THEN <<"text", Shortest(o[4])>> ELSE <<"no">>)
      [] o[1] = "fvalue" -> Val(<<"text", IF Plain(o[4]) THEN Shortest(o[4]) ELSE <<48>>>>)
      [] o[1] = "lower" -> Val(<<"text", Map(LAMBDA c : Lower(IF o[2] = "w" THEN o[3] ELSE "c", c), o[4])>>)
      [] o[1] = "upper" -> Val(<<"text", Map(LAMBDA c : Upper(IF o[2] = "w" THEN o[3] ELSE "c", c), o[4])>>)
      [] o[1] = "push" -> st' = Append(st, o[2]) /\ ret' = <<"ok">>

Ops == IF Len(st) < MaxLen THEN {<<"push", c>> : c \in Codes} ELSE {}
Start == <<>>
Init == st = Start /\ ret = <<"ok">> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
Num(n) == LET m == IF n < 0 THEN 0 - n ELSE n IN <<IF n < 0 THEN 1 ELSE 0, IF m < 10000 THEN <<m>> ELSE <<m \div 10000, m % 10000>>>>
\* on texts: canonical texts are exactly the forms of integers, and converting back is the identity
TextsAreForms == Canonical(st) => Fmt(Value(st)) = st
OnlyForms == (\E n \in (0 - Small)..Small : Fmt(Num(n)) = st) => Canonical(st)
\* on numbers (checked once): forms are canonical, give the number back, and the order is that of integers
Forms == st = <<>> => \A n \in (0 - Small)..Small : Canonical(Fmt(Num(n))) /\ Value(Fmt(Num(n))) = Num(n)
Order == st = <<>> => \A n \in (0 - Small)..Small : \A d \in {-9999, -11, -1, 0, 1, 9, 10000} : Le(Num(n), Num(n + d)) = (d >= 0)
\* the shortest notation of a fraction is a fixed point and keeps the number
FractionLaws == Plain(st) /\ Exact(st) => LET t == Shortest(st) IN
    /\ Plain(t) /\ Exact(t) /\ Shortest(t) = t
    /\ Points(st) = {} /\ Head(st) # 43 /\ Canonical(st) => t = st
    /\ Shortest(IF Points(t) = {} THEN t \o <<46, 48>> ELSE t \o <<48>>) = t
\* case conversions undo each other, never change twice and touch nothing without case
CaseLaws == st = <<>> => \A e \in {"c", "uni"} : \A c \in 1..1500 :
    /\ Lower(e, Lower(e, c)) = Lower(e, c) /\ Upper(e, Upper(e, c)) = Upper(e, c)
    /\ Lower(e, c) # c => Upper(e, Lower(e, c)) = c
    /\ Upper(e, c) # c => Lower(e, Upper(e, c)) = c

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok">>
Match(e) == e.r = ret' /\ (e.o[1] = "reset" => e.left <= 0)
=============================================================================
