--------------------------------- MODULE Str --------------------------------
(* Strings as values (property C12): s[x] is the sequence of characters of       *)
(* string x. Characters are small numbers in the order of the character type;    *)
(* 0 is the zero character, which may occur inside a text that was given with    *)
(* its length. Every operation makes a new value; nothing is shared.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Chars, MaxLen
VARIABLES st, ret, op
vars == <<st, ret, op>>

Ok(d, t) == st' = [st EXCEPT ![d] = t] /\ ret' = <<"ok", 0>>
Err == st' = st /\ ret' = <<"err", 0>>
Val(v) == st' = st /\ ret' = <<"v", v>>
Len1(x) == Len(st[x])
Sub(s, i, n) == SubSeq(s, i + 1, i + n)
Cut(s, i, n) == SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s))
Put(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
RECURSIVE Cmp(_, _)
Cmp(s, t) == IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1) ELSE IF t = <<>> THEN 1
             ELSE IF Head(s) < Head(t) THEN -1 ELSE IF Head(s) > Head(t) THEN 1 ELSE Cmp(Tail(s), Tail(t))
First(s, c) == LET P == {i \in DOMAIN s : s[i] = c} IN IF P = {} THEN -1 ELSE (CHOOSE i \in P : \A j \in P : i <= j) - 1
Left(d, a, n) == IF n < 0 \/ n > Len1(a) THEN Err ELSE Ok(d, Sub(st[a], 0, n))
Right(d, a, n) == IF n < 0 \/ n > Len1(a) THEN Err ELSE Ok(d, Sub(st[a], Len1(a) - n, n))
SubStr(d, a, i, n) == IF i < 0 \/ n < 0 \/ i + n > Len1(a) THEN Err ELSE Ok(d, Sub(st[a], i, n))
Remove(d, a, i, n) == IF i < 0 \/ i >= Len1(a) \/ n < 0 \/ i + n > Len1(a) THEN Err ELSE Ok(d, Cut(st[a], i, n))
Insert(d, a, i, b) == IF i < 0 \/ i > Len1(a) THEN Err ELSE Ok(d, Put(st[a], i, st[b]))
MoveTo(d, a) == IF d = a THEN st' = st /\ ret' = <<"ok", 0>> ELSE st' = [st EXCEPT ![d] = st[a], ![a] = <<>>] /\ ret' = <<"ok", 0>>

Do(o) ==
    CASE o[1] \in {"lit", "unmanaged", "copyfrom", "takeover"} -> Ok(o[2], o[3])
      [] o[1] = "fromchar" -> Ok(o[2], <<o[3]>>)
      [] o[1] \in {"assign", "copy", "cast"} -> Ok(o[2], st[o[3]])
      [] o[1] \in {"move", "movector"} -> MoveTo(o[2], o[3])
      [] o[1] = "left" -> Left(o[2], o[3], o[4])
      [] o[1] = "right" -> Right(o[2], o[3], o[4])
      [] o[1] = "sub" -> SubStr(o[2], o[3], o[4], o[5])
      [] o[1] = "remove" -> Remove(o[2], o[3], o[4], o[5])
      [] o[1] = "insert" -> Insert(o[2], o[3], o[4], o[5])
      [] o[1] = "concat" -> Ok(o[2], st[o[3]] \o st[o[4]])
      [] o[1] = "append" -> Ok(o[2], st[o[2]] \o st[o[3]])
      [] o[1] = "appendlit" -> Ok(o[2], st[o[2]] \o o[3])
      [] o[1] = "concatlit" -> Ok(o[2], st[o[3]] \o o[4])
      [] o[1] = "litconcat" -> Ok(o[2], o[3] \o st[o[4]])
      [] o[1] = "index" -> IF o[3] < 0 \/ o[3] >= Len1(o[2]) THEN Err ELSE Val(st[o[2]][o[3] + 1])
      [] o[1] = "indexof" -> Val(First(st[o[2]], o[3]))
      [] o[1] = "cmp" -> Val(Cmp(st[o[2]], st[o[3]]))
      [] o[1] = "cmplit" -> Val(Cmp(st[o[2]], o[3]))
      [] o[1] = "buffer" -> st' = st /\ ret' = <<"txt", st[o[2]]>>
      [] o[1] = "badmake" -> Err

Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Fits(n) == n <= MaxLen
Ops == {<<n, d, t>> : n \in {"lit", "unmanaged", "copyfrom", "takeover"}, d \in Slots, t \in Texts}
  \cup {<<n, d, a>> : n \in {"assign", "copy", "cast", "move", "movector"}, d \in Slots, a \in Slots}
  \cup {<<n, d, a, k>> : n \in {"left", "right"}, d \in Slots, a \in Slots, k \in (-1)..(MaxLen + 1)}
  \cup {<<n, d, a, i, k>> : n \in {"sub", "remove"}, d \in Slots, a \in Slots, i \in (-1)..(MaxLen + 1), k \in (-1)..(MaxLen + 1)}
  \cup {<<"insert", d, a, i, b>> : d \in Slots, a \in Slots, i \in (-1)..(MaxLen + 1), b \in {x \in Slots : \A y \in Slots : Fits(Len1(x) + Len1(y))}}
  \cup {<<"concat", d, p[1], p[2]>> : d \in Slots, p \in {q \in Slots \X Slots : Fits(Len1(q[1]) + Len1(q[2]))}}
  \cup {<<"append", p[1], p[2]>> : p \in {q \in Slots \X Slots : Fits(Len1(q[1]) + Len1(q[2]))}}
  \cup {<<n, x[1], x[2]>> : n \in {"appendlit"}, x \in {q \in Slots \X Texts : Fits(Len1(q[1]) + Len(q[2]))}}
  \cup {<<"concatlit", d, x[1], x[2]>> : d \in Slots, x \in {q \in Slots \X Texts : Fits(Len1(q[1]) + Len(q[2]))}}
  \cup {<<"litconcat", d, x[2], x[1]>> : d \in Slots, x \in {q \in Slots \X Texts : Fits(Len1(q[1]) + Len(q[2]))}}
  \cup {<<"index", a, i>> : a \in Slots, i \in (-1)..MaxLen} \cup {<<"indexof", a, c>> : a \in Slots, c \in Chars}
  \cup {<<"cmp", a, b>> : a \in Slots, b \in Slots} \cup {<<"buffer", a>> : a \in Slots}
  \cup {<<"cmplit", a, t>> : a \in Slots, t \in Texts}
Start == [x \in Slots |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
\* an operation changes only its target (and, for moves, its source)
Immutable == [][\A x \in Slots : x # op'[2] /\ ~(op'[1] \in {"move", "movector"} /\ x = op'[3]) => st'[x] = st[x]]_vars
ReadsChangeNothing == [][op'[1] \in {"index", "indexof", "cmp", "cmplit", "buffer"} => st' = st]_vars
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars
CmpIsOrder == \A x, y \in Slots : Cmp(st[x], st[y]) = 0 - Cmp(st[y], st[x]) /\ (Cmp(st[x], st[y]) = 0) = (st[x] = st[y])
SliceJoin == \A x \in Slots : \A n \in 0..Len(st[x]) :
    Sub(st[x], 0, n) \o Sub(st[x], n, Len(st[x]) - n) = st[x] /\ Cut(Put(st[x], n, <<1>>), n, 1) = st[x]

(* ------------------------------ traces ----------------------------------- *)
\* e.s: all strings read character by character; e.held: buffers handed out before and still owned read the same;
\* after a reset nothing is left allocated
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == ret' = e.r /\ e.held = 1 /\ (\A x \in Slots : e.s[x] = st'[x]) /\ (e.o[1] = "reset" => e.left <= 0)
=============================================================================
