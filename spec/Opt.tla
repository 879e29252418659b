-------------------------------- MODULE Opt --------------------------------
(* Optional values (property C17). A slot holds <<>> (nothing) or <<v>>.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Vals, Tracked
VARIABLES st, ret, op
vars == <<st, ret, op>>

B(b) == IF b THEN 1 ELSE 0
Err == st' = st /\ ret' = <<"err", 0>>
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Put(c, s) == st' = [st EXCEPT ![c] = s] /\ ret' = <<"ok", 0>>
Cmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
             ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE 0

Copy(c, d) == Put(c, st[d])
Move(c, d) == IF c = d THEN Ask("ok", 0)
              ELSE st' = [st EXCEPT ![c] = st[d], ![d] = <<>>] /\ ret' = <<"ok", 0>>
Value(c) == IF st[c] = <<>> THEN Err ELSE Ask("v", st[c][1])
\* assigning the value read from an optional (possibly the same one)
SetFrom(c, d) == IF st[d] = <<>> THEN Err ELSE Put(c, st[d])
Swap(c, d) == st' = [st EXCEPT ![c] = st[d], ![d] = st[c]] /\ ret' = <<"ok", 0>>

Stores == {"new", "newm", "set", "setm"}
Empties == {"newempty", "clear", "setempty"}
Do(o) ==
    CASE o[1] \in Stores -> Put(o[2], <<o[3]>>)
      [] o[1] \in Empties -> Put(o[2], <<>>)
      [] o[1] \in {"copyctor", "copy"} -> Copy(o[2], o[3])
      [] o[1] \in {"movector", "move"} -> Move(o[2], o[3])
      [] o[1] = "setfrom" -> SetFrom(o[2], o[3])
      [] o[1] = "swap" -> Swap(o[2], o[3])
      [] o[1] = "value" -> Value(o[2])
      [] o[1] = "bool" -> Ask("b", B(st[o[2]] # <<>>))
      [] o[1] = "cmp" -> Ask("i", Cmp(st[o[2]], st[o[3]]))
      [] o[1] = "eq" -> Ask("b", B(st[o[2]] = st[o[3]]))

Ops == UNION {
       {<<n, c, v>> : n \in Stores, v \in Vals}
  \cup {<<n, c>> : n \in Empties \cup {"value", "bool"}}
  \cup {<<n, c, d>> : n \in {"copy", "move", "setfrom", "cmp", "eq"}, d \in Slots}
  \cup {<<n, c, d>> : n \in {"copyctor", "movector", "swap"}, d \in Slots \ {c}} : c \in Slots}

Start == [c \in Slots |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
AtMostOne == \A c \in Slots : Len(st[c]) <= 1
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars
LastAssigned == [][op'[1] \in Stores => st'[op'[2]] = <<op'[3]>>]_vars
MovedFromIsEmpty == [][op'[1] \in {"move", "movector"} /\ op'[2] # op'[3] => st'[op'[3]] = <<>> /\ st'[op'[2]] = st[op'[3]]]_vars
Locality == [][\A c \in Slots : st'[c] # st[c] => c = op'[2] \/ (op'[1] \in {"move", "movector", "swap"} /\ c = op'[3])]_vars
\* the comparison is a total order with nothing as its least element
TotalOrder == \A c, d, e \in Slots :
    /\ Cmp(st[c], st[d]) = -Cmp(st[d], st[c])
    /\ (Cmp(st[c], st[d]) = 0) = (st[c] = st[d])
    /\ Cmp(st[c], st[d]) <= 0 /\ Cmp(st[d], st[e]) <= 0 => Cmp(st[c], st[e]) <= 0
    /\ st[c] = <<>> => Cmp(st[c], st[d]) <= 0

(* ------------------------------ traces ----------------------------------- *)
Held(s) == Cardinality({c \in Slots : s[c] # <<>>})
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ st' = e.s /\ e.bad = 0 /\ e.mem = 0
            /\ Tracked => e.live = Held(st')
=============================================================================
