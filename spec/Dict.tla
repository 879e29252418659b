-------------------------------- MODULE Dict --------------------------------
(* Dictionaries (properties C06, C04): finite maps, kept as the sequence of  *)
(* key-value pairs in ascending key order.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dicts, Keys, Vals, CheckLife
VARIABLES st, ret, op
vars == <<st, ret, op>>

Pos(s, k) == LET P == {i \in 1..Len(s) : s[i][1] = k} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
Below(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] < k})
Put(s, k, v) == IF Pos(s, k) # 0 THEN [s EXCEPT ![Pos(s, k)] = <<k, v>>]
                ELSE SubSeq(s, 1, Below(s, k)) \o << <<k, v>> >> \o SubSeq(s, Below(s, k) + 1, Len(s))
Drop(s, k) == SelectSeq(s, LAMBDA p : p[1] # k)
Err == st' = st /\ ret' = <<"err", 0>>
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Upd(c, s, k, v) == st' = [st EXCEPT ![c] = s] /\ ret' = <<k, v>>

Add(c, k, v) == IF Pos(st[c], k) # 0 THEN Err ELSE Upd(c, Put(st[c], k, v), "b", 1)
Set(c, k, v) == Upd(c, Put(st[c], k, v), "b", 1)
AddSelf(c, k, k2) == IF Pos(st[c], k2) = 0 THEN Err ELSE Add(c, k, st[c][Pos(st[c], k2)][2])
SetSelf(c, k, k2) == IF Pos(st[c], k2) = 0 THEN Err ELSE Set(c, k, st[c][Pos(st[c], k2)][2])
Remove(c, k) == IF Pos(st[c], k) = 0 THEN Ask("b", 0) ELSE Upd(c, Drop(st[c], k), "b", 1)
RemoveSelf(c, i) == IF i < 0 \/ i >= Len(st[c]) THEN Err ELSE Remove(c, st[c][i + 1][1])
Get(c, k) == IF Pos(st[c], k) = 0 THEN Err ELSE Ask("v", st[c][Pos(st[c], k)][2])
HasKey(c, k) == Ask("i", Pos(st[c], k) - 1)
Count(c) == Ask("i", Len(st[c]))
Clear(c) == Upd(c, <<>>, "b", 1)
Fresh(c) == Upd(c, <<>>, "ok", 0)
MoveTo(c, d) == st' = [st EXCEPT ![c] = st[d], ![d] = <<>>] /\ ret' = <<"ok", 0>>

AddNames == {"add", "addcm", "addmc", "addmm", "addpair", "addpairm"}
SetNames == {"set", "setcm", "setmc", "setmm"}
Do(o) ==
    CASE o[1] \in AddNames -> Add(o[2], o[3], o[4])
      [] o[1] \in SetNames -> Set(o[2], o[3], o[4])
      [] o[1] = "addself" -> AddSelf(o[2], o[3], o[4])
      [] o[1] = "setself" -> SetSelf(o[2], o[3], o[4])
      [] o[1] = "remove" -> Remove(o[2], o[3])
      [] o[1] = "removeself" -> RemoveSelf(o[2], o[3])
      [] o[1] \in {"get", "at"} -> Get(o[2], o[3])
      [] o[1] = "haskey" -> HasKey(o[2], o[3])
      [] o[1] = "count" -> Count(o[2])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "fresh" -> Fresh(o[2])
      [] o[1] \in {"move", "movector"} -> MoveTo(o[2], o[3])

Ops == UNION {
       {<<n, c, k, v>> : n \in AddNames \cup SetNames, k \in Keys, v \in Vals}
  \cup {<<n, c, k, k2>> : n \in {"addself", "setself"}, k \in Keys, k2 \in Keys}
  \cup {<<n, c, k>> : n \in {"remove", "get", "at", "haskey"}, k \in Keys}
  \cup {<<"removeself", c, i>> : i \in -1..Len(st[c])}
  \cup {<<n, c>> : n \in {"count", "clear", "fresh"}}
  \cup {<<n, c, d>> : n \in {"move", "movector"}, d \in Dicts \ {c}} : c \in Dicts}

Start == [c \in Dicts |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
Ascending == \A c \in Dicts : \A i, j \in 1..Len(st[c]) : i < j => st[c][i][1] < st[c][j][1]
Lookup(s, k) == IF Pos(s, k) = 0 THEN {} ELSE {s[Pos(s, k)][2]}
\* a stored key maps to the stored value, every other key keeps its value
OnlyThatKey == [][
    op'[1] \in AddNames \cup SetNames /\ ret'[1] # "err" =>
        /\ Lookup(st'[op'[2]], op'[3]) = {op'[4]}
        /\ \A k \in Keys \ {op'[3]} : Lookup(st'[op'[2]], k) = Lookup(st[op'[2]], k)]_vars
RemoveThatKey == [][
    op'[1] = "remove" => /\ Lookup(st'[op'[2]], op'[3]) = {}
                         /\ (ret'[2] = 1) = (Lookup(st[op'[2]], op'[3]) # {})
                         /\ \A k \in Keys \ {op'[3]} : Lookup(st'[op'[2]], k) = Lookup(st[op'[2]], k)]_vars
AddNeverReplaces == [][op'[1] \in AddNames /\ Lookup(st[op'[2]], op'[3]) # {} => ret'[1] = "err"]_vars
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars

(* ------------------------------ traces ----------------------------------- *)
Total(s) == LET RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Len(s[c]) + Sum(S \ {c})
            IN Sum(DOMAIN s)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
\* e.s: contents by keys and values, e.en: contents by enumeration
Match(e) == /\ ret' = e.r /\ st' = e.s /\ st' = e.en
            /\ CheckLife => e.bad = 0 /\ e.live = 2 * Total(st') /\ e.mem = 0
=============================================================================
