-------------------------------- MODULE Sort --------------------------------
(* Sorting (property C10). arr is a sequence of elements <<key, id>>; ids make   *)
(* equal keys distinguishable. A sort may produce any permutation in which no    *)
(* element is ordered before its predecessor; the order of equal elements is     *)
(* left open.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS KeyVals, MaxLen, Cmps
VARIABLES st, ret, op
vars == <<st, ret, op>>

\* comparators: "lt", "eq", "gt" or "un" (unordered)
Three(a, b) == IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq"
Divides(a, b) == b % a = 0
Cmp(c, x, y) ==
    CASE c = "asc" -> Three(x[1], y[1])
      [] c = "desc" -> Three(y[1], x[1])
      [] c = "half" -> Three(x[1] \div 2, y[1] \div 2)
      [] c = "same" -> "eq"
      [] c = "div" -> IF x[1] = y[1] THEN "eq" ELSE IF Divides(x[1], y[1]) THEN "lt" ELSE IF Divides(y[1], x[1]) THEN "gt" ELSE "un"
      [] c = "nan" -> IF x[1] = 0 \/ y[1] = 0 THEN "un" ELSE Three(x[1], y[1])
Ordered(c, s) == \A i \in 1..(Len(s) - 1) : Cmp(c, s[i + 1], s[i]) # "lt"
\* for the transitive comparators this says the same of any two positions
OrderedAll(c, s) == \A i, j \in DOMAIN s : i < j => Cmp(c, s[j], s[i]) # "lt"
IsPerm(s, t) == Len(s) = Len(t) /\ {s[i] : i \in DOMAIN s} = {t[i] : i \in DOMAIN t}   \* elements are distinct (ids)
Total(c) == c \in {"asc", "desc", "half", "same"}
Tag(xs) == [i \in DOMAIN xs |-> <<xs[i], i>>]

Load(xs) == st' = [arr |-> Tag(xs), told |-> 0] /\ ret' = <<"ok", 0>>
\* told: how often the comparator answered "unordered"
Fail == st' \in {[arr |-> p, told |-> 1] : p \in {st.arr}} /\ ret' = <<"err", 0>>
Perms(s) == {[i \in DOMAIN s |-> s[p[i]]] : p \in {q \in [DOMAIN s -> DOMAIN s] : \A i, j \in DOMAIN s : q[i] = q[j] => i = j}}
CanFail(c) == \E i, j \in DOMAIN st.arr : i # j /\ Cmp(c, st.arr[i], st.arr[j]) = "un"
SortBy(c) == \/ \E s \in Perms(st.arr) : Ordered(c, s) /\ OrderedAll(c, s) /\ st' = [arr |-> s, told |-> 0] /\ ret' = <<"ok", 0>>
             \/ CanFail(c) /\ Fail
Do(o) ==
    CASE o[1] = "load" -> Load(o[2])
      [] o[1] = "sort" -> SortBy(o[3])
Contents == UNION {[1..n -> KeyVals] : n \in 0..MaxLen}
Ops == {<<"load", c>> : c \in Contents} \cup {<<"sort", "any", c>> : c \in Cmps}
Start == [arr |-> <<>>, told |-> 0]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
\* only the inputs are emitted (results are left open); every input is sorted in every way
Emit == IF op'[1] = "load" THEN PrintT("EDGE " \o ToJson(<<0, op', 0>>)) ELSE TRUE
LoadOnly == Init /\ [][op[1] = "init" /\ \E c \in Contents : Load(c) /\ op' = <<"load", c>>]_vars

(* ------------------------------ properties ------------------------------- *)
Permutation == [][op'[1] = "sort" => IsPerm(st.arr, st'.arr)]_vars
InOrder == [][op'[1] = "sort" /\ ret'[1] = "ok" => OrderedAll(op'[3], st'.arr)]_vars
\* sorting twice in the same order only moves equal elements; a total or weak order never fails
NeverFails == [][op'[1] = "sort" /\ Total(op'[3]) => ret'[1] = "ok"]_vars

(* ------------------------------ traces ----------------------------------- *)
\* sort ops of traces: <<"sort", how, cmp>>; e.arr: the array afterwards, e.out: what the sort gave (the same for
\* sorts in place), e.told: "unordered" answers during it. Lazy orderings (how = "order*") leave the array alone.
InPlace(how) == how \in {"sort", "sortlambda", "plain", "strings", "pointers"}
TraceDo(e) ==
    CASE e.o[1] = "load" -> Load(e.o[2])
      [] e.o[1] = "sort" ->
          /\ ret' = IF e.told > 0 THEN <<"err", 0>> ELSE <<"ok", 0>>
          /\ st' = IF e.told > 0 THEN [arr |-> e.arr, told |-> e.told]
                   ELSE [arr |-> IF InPlace(e.o[2]) THEN e.out ELSE st.arr, told |-> 0]
          /\ e.told > 0 => ~Total(e.o[3])
          /\ e.told = 0 => IsPerm(e.out, st.arr) /\ Ordered(e.o[3], e.out) /\ (Total(e.o[3]) => Len(e.out) > 60 \/ OrderedAll(e.o[3], e.out))
          /\ IsPerm(e.arr, st.arr)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == ret' = e.r /\ st'.arr = e.arr /\ e.bad = 0
=============================================================================
