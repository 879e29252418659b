------------------------------- MODULE Sorted -------------------------------
(* Sorted lists (properties C05, C04): a sequence in non-decreasing key      *)
(* order holding a multiset of values. Where values with equal keys can be   *)
(* told apart (KeyDiv > 1: the key of v is v \div KeyDiv), their relative    *)
(* order and which of them a search or removal picks is left open.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lists, Vals, MaxLen, KeyDiv, CheckLife
VARIABLES st, ret, op
vars == <<st, ret, op>>

Key(v) == v \div KeyDiv
InsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
RemoveSlice(s, i, n) == SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s))
IsSorted(s) == \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
Hits(s, v) == {i \in 1..Len(s) : Key(s[i]) = Key(v)}
In(c, i) == i >= 0 /\ i < Len(st[c])
B(b) == IF b THEN 1 ELSE 0
Err == st' = st /\ ret' = <<"err", 0>>
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Put(c, s, k, v) == st' = [st EXCEPT ![c] = s] /\ ret' = <<k, v>>

\* positions at which v can be inserted keeping the order
Gaps(s, v) == {i \in 0..Len(s) : (i = 0 \/ Key(s[i]) <= Key(v)) /\ (i = Len(s) \/ Key(v) <= Key(s[i + 1]))}
Add(c, v) == \E i \in Gaps(st[c], v) : Put(c, InsertAt(st[c], i, v), "i", i)
AddSelf(c, i) == IF In(c, i) THEN Add(c, st[c][i + 1]) ELSE Err
IndexOf(c, v) == IF Hits(st[c], v) = {} THEN Ask("i", -1) ELSE \E i \in Hits(st[c], v) : Ask("i", i - 1)
Contains(c, v) == Ask("b", B(Hits(st[c], v) # {}))
Remove(c, v) == IF Hits(st[c], v) = {} THEN Ask("b", 0)
                ELSE \E i \in Hits(st[c], v) : Put(c, RemoveSlice(st[c], i - 1, 1), "b", 1)
RemoveSelf(c, i) == IF In(c, i) THEN Remove(c, st[c][i + 1]) ELSE Err
RemoveAt(c, i) == IF In(c, i) THEN Put(c, RemoveSlice(st[c], i, 1), "b", 1) ELSE Err
RemoveRange(c, i, n) ==
    IF i >= 0 /\ n >= 0 /\ i + n <= Len(st[c]) THEN Put(c, RemoveSlice(st[c], i, n), "b", 1) ELSE Err
Get(c, i) == IF In(c, i) THEN Ask("v", st[c][i + 1]) ELSE Err
Clear(c) == Put(c, <<>>, "b", 1)
Fresh(c) == Put(c, <<>>, "ok", 0)
MoveTo(c, d) == st' = [st EXCEPT ![c] = st[d], ![d] = <<>>] /\ ret' = <<"ok", 0>>
CopyTo(c, d) == Put(c, st[d], "ok", 0)

Do(o) ==
    CASE o[1] \in {"add", "addm"} -> Add(o[2], o[3])
      [] o[1] = "addself" -> AddSelf(o[2], o[3])
      [] o[1] = "indexof" -> IndexOf(o[2], o[3])
      [] o[1] = "contains" -> Contains(o[2], o[3])
      [] o[1] = "remove" -> Remove(o[2], o[3])
      [] o[1] = "removeself" -> RemoveSelf(o[2], o[3])
      [] o[1] = "removeat" -> RemoveAt(o[2], o[3])
      [] o[1] = "removerange" -> RemoveRange(o[2], o[3], o[4])
      [] o[1] \in {"get", "at"} -> Get(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "fresh" -> Fresh(o[2])
      [] o[1] \in {"move", "movector"} -> MoveTo(o[2], o[3])
      [] o[1] = "copyctor" -> CopyTo(o[2], o[3])

Room(c) == Len(st[c]) < MaxLen
Ix(c) == -1..(Len(st[c]) + 1)
Ops == UNION {
       (IF Room(c) THEN {<<n, c, v>> : n \in {"add", "addm"}, v \in Vals} \cup {<<"addself", c, i>> : i \in Ix(c)} ELSE {})
  \cup {<<n, c, v>> : n \in {"remove", "indexof", "contains"}, v \in Vals}
  \cup {<<n, c, i>> : n \in {"removeself", "removeat", "get", "at"}, i \in Ix(c)}
  \cup {<<"removerange", c, i, n>> : i \in Ix(c), n \in (-1)..(MaxLen + 1)}
  \cup {<<"clear", c>>, <<"fresh", c>>}
  \cup {<<n, c, d>> : n \in {"move", "movector", "copyctor"}, d \in Lists \ {c}} : c \in Lists}

Start == [c \in Lists |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
AlwaysSorted == \A c \in Lists : IsSorted(st[c])
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
\* the multiset changes exactly as asked
MultisetStep == [][
    /\ op'[1] \in {"add", "addm"} => \A v \in Vals : Count(st'[op'[2]], v) = Count(st[op'[2]], v) + B(v = op'[3])
    /\ op'[1] = "remove" /\ ret' = <<"b", 1>> => Len(st'[op'[2]]) = Len(st[op'[2]]) - 1
    /\ op'[1] = "remove" /\ ret' = <<"b", 0>> => st' = st /\ \A i \in 1..Len(st[op'[2]]) : Key(st[op'[2]][i]) # Key(op'[3])
    /\ op'[1] = "copyctor" => st'[op'[3]] = st[op'[3]] ]_vars
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars
PositionIsTrue == [][op'[1] \in {"add", "addm"} => st'[op'[2]][ret'[2] + 1] = op'[3]]_vars

(* ------------------------------ traces ----------------------------------- *)
Total(s) == LET RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Len(s[c]) + Sum(S \ {c})
            IN Sum(DOMAIN s)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ st' = e.s
            /\ CheckLife => e.bad = 0 /\ e.live = Total(st') /\ e.mem = 0
=============================================================================
