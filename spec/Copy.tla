-------------------------------- MODULE Copy --------------------------------
(* Bulk copying (property C25). Slots hold containers of a kind: list, array,      *)
(* sorted, str hold numbers; plist, parray, dict, group hold <<key, value>> pairs. *)
(* A container's content is the sequence of its elements in its own order.         *)
(* Sources are slots, raw ranges and lazy sequences over slots.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS KindList, Vals, MaxLen      \* for the model: which kinds take part, values, lengths
VARIABLES st, ret, op
vars == <<st, ret, op>>

Insert(s, x, Le(_, _)) == LET p == Cardinality({i \in 1..Len(s) : Le(s[i], x)}) IN SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
RECURSIVE Sorted(_, _), AsMap(_, _), AsGroup(_, _)
NumLe(a, b) == a <= b
KeyLe(a, b) == a[1] <= b[1]
\* the arrangement a kind gives to elements that arrive one after another
Sorted(s, xs) == IF xs = <<>> THEN s ELSE Sorted(Insert(s, Head(xs), NumLe), Tail(xs))
AsGroup(s, xs) == IF xs = <<>> THEN s ELSE AsGroup(Insert(s, Head(xs), KeyLe), Tail(xs))
PutMap(s, x) == LET P == {i \in 1..Len(s) : s[i][1] = x[1]} IN IF P = {} THEN Insert(s, x, KeyLe) ELSE [s EXCEPT ![CHOOSE i \in P : TRUE] = x]
AsMap(s, xs) == IF xs = <<>> THEN s ELSE AsMap(PutMap(s, Head(xs)), Tail(xs))
Arrange(k, before, xs) ==
    CASE k = "sorted" -> Sorted(before, xs) [] k = "dict" -> AsMap(before, xs) [] k = "group" -> AsGroup(before, xs)
      [] OTHER -> before \o xs
Copy(k, before, xs, append) == Arrange(k, IF append = 1 THEN before ELSE <<>>, xs)

PairKinds == {"plist", "parray", "dict", "group"}
Odd(x) == x % 2 = 1
Even(p) == p[1] % 2 = 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Lazy(how, s, pairs) ==
    CASE how = "all" -> s
      [] how = "some" -> IF pairs THEN SelectSeq(s, Even) ELSE SelectSeq(s, Odd)
      [] how = "twice" -> s \o s
      [] how = "back" -> Rev(s)
Upd(d, xs, a) == st' = [st EXCEPT !.c[d] = Copy(st.k[d], st.c[d], xs, a)] /\ ret' = <<"ok">>
\* o = <<"copy", target, source, append>>, <<"lazy", target, source, how, append>>, <<"raw", target, how, contents, append>>
Do(o) ==
    CASE o[1] = "copy" -> Upd(o[2], st.c[o[3]], o[4])
      [] o[1] = "lazy" -> Upd(o[2], Lazy(o[4], st.c[o[3]], st.k[o[3]] \in PairKinds), o[5])
      [] o[1] = "raw" -> Upd(o[2], o[4], o[5])
      [] o[1] = "clear" -> st' = [st EXCEPT !.c[o[2]] = <<>>] /\ ret' = <<"ok">>

Start(ks) == [k |-> ks, c |-> [s \in DOMAIN ks |-> <<>>]]
Reset(e) == LET S == {e.o[2][i] : i \in DOMAIN e.o[2]} IN st' = Start([s \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = s)[2]]) /\ ret' = <<"ok">>
\* every slot is recorded after every step, so that a source that changed is seen
Match(e) == /\ e.r = ret'
            /\ \A i \in DOMAIN e.c : e.c[i][2] = st'.c[e.c[i][1]]
            /\ {e.c[i][1] : i \in DOMAIN e.c} = DOMAIN st'.c
            /\ e.bad = 0 /\ e.extra = 0
            /\ e.o[1] = "reset" => e.left = 0

(* ------------------------------- the model ------------------------------- *)
Names == IF KindList = "n" THEN {"list", "array", "sorted"} ELSE IF KindList = "n2" THEN {"list", "sorted", "str"} ELSE IF KindList = "p" THEN {"dict", "group"} ELSE {"plist", "parray", "dict"}
Pairs == KindList \in {"p", "p2"}
Elems == IF Pairs THEN {<<k, v>> : k \in Vals, v \in Vals} ELSE Vals
Raws == UNION {[1..n -> Elems] : n \in 0..MaxLen}
Ops == {<<"copy", d, s, a>> : d \in Names, s \in Names, a \in {0, 1}}
  \cup {<<"raw", d, h, c, a>> : d \in Names, h \in {"count", "range"}, c \in Raws, a \in {0, 1}}
  \cup {<<"lazy", p[1], p[2], h, a>> : p \in {q \in Names \X Names : q[1] # q[2]}, h \in {"all", "some", "twice", "back"}, a \in {0, 1}}
  \cup {<<"clear", d>> : d \in Names}
Ok(o) == o[1] \in {"copy", "lazy"} => ((o[2] # "str" /\ o[3] # "str") \/ (o[1] = "copy" /\ o[2] # o[3]))
Init == st = Start([s \in Names |-> s]) /\ ret = <<"ok">> /\ op = <<"init">>
Next == \E o \in Ops : Ok(o) /\ Do(o) /\ op' = o /\ \A s \in Names : Len(st'.c[s]) <= MaxLen
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))
Ordered == \A s \in Names : \A i, j \in DOMAIN st.c[s] : i < j =>
    CASE st.k[s] = "sorted" -> st.c[s][i] <= st.c[s][j] [] st.k[s] = "dict" -> st.c[s][i][1] < st.c[s][j][1] [] st.k[s] = "group" -> st.c[s][i][1] <= st.c[s][j][1] [] OTHER -> TRUE
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Src == IF op'[1] = "copy" THEN st.c[op'[3]] ELSE IF op'[1] = "lazy" THEN Lazy(op'[4], st.c[op'[3]], Pairs) ELSE op'[4]
App == op'[Len(op')]
\* exactly the source's elements, after those that were there when appending; nothing else changes
Exactly == [][op'[1] # "clear" =>
    /\ \A s \in Names \ {op'[2]} : st'.c[s] = st.c[s]
    /\ LET t == st'.c[op'[2]] b == st.c[op'[2]] k == st.k[op'[2]] IN
       IF k = "dict" THEN {t[i][1] : i \in DOMAIN t} = {Src[i][1] : i \in DOMAIN Src} \cup (IF App = 1 THEN {b[i][1] : i \in DOMAIN b} ELSE {})
       ELSE \A x \in Elems : Count(t, x) = Count(Src, x) + (IF App = 1 THEN Count(b, x) ELSE 0)]_vars
=============================================================================
