-------------------------------- MODULE Grp ---------------------------------
(* Groups (properties C07, C04): ordered multimaps, kept as the sequence of  *)
(* <<key, values in order of addition>> in ascending key order.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups, Keys, Vals, MaxVals, CheckLife
VARIABLES st, ret, op
vars == <<st, ret, op>>

Pos(s, k) == LET P == {i \in 1..Len(s) : s[i][1] = k} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
Below(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] < k})
ValuesOf(s, k) == IF Pos(s, k) = 0 THEN <<>> ELSE s[Pos(s, k)][2]
Drop(s, k) == SelectSeq(s, LAMBDA p : p[1] # k)
\* give key k the values vs; a key without values is not present
Put(s, k, vs) ==
    IF vs = <<>> THEN Drop(s, k)
    ELSE IF Pos(s, k) # 0 THEN [s EXCEPT ![Pos(s, k)] = <<k, vs>>]
    ELSE SubSeq(s, 1, Below(s, k)) \o << <<k, vs>> >> \o SubSeq(s, Below(s, k) + 1, Len(s))
Find(s, v) == LET P == {i \in 1..Len(s) : s[i] = v}
              IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE [i \in 1..Len(s[1][2]) |-> <<s[1][1], s[1][2][i]>>] \o Flat(Tail(s))
\* the join visits every key of either side once, in ascending order
RECURSIVE Join(_, _)
Join(a, b) ==
    IF a = <<>> /\ b = <<>> THEN <<>>
    ELSE IF b = <<>> THEN << <<1, a[1][1], a[1][2], <<>> >> >> \o Join(Tail(a), b)
    ELSE IF a = <<>> THEN << <<2, b[1][1], <<>>, b[1][2]>> >> \o Join(a, Tail(b))
    ELSE IF a[1][1] < b[1][1] THEN << <<1, a[1][1], a[1][2], <<>> >> >> \o Join(Tail(a), b)
    ELSE IF a[1][1] > b[1][1] THEN << <<2, b[1][1], <<>>, b[1][2]>> >> \o Join(a, Tail(b))
    ELSE << <<3, a[1][1], a[1][2], b[1][2]>> >> \o Join(Tail(a), Tail(b))

B(b) == IF b THEN 1 ELSE 0
Err == st' = st /\ ret' = <<"err", 0>>
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Upd(c, s, k, v) == st' = [st EXCEPT ![c] = s] /\ ret' = <<k, v>>

Add(c, k, v) == Upd(c, Put(st[c], k, Append(ValuesOf(st[c], k), v)), "b", 1)
AddSelf(c, k, k2, i) == IF i < 0 \/ i >= Len(ValuesOf(st[c], k2)) THEN Err ELSE Add(c, k, ValuesOf(st[c], k2)[i + 1])
RemoveKey(c, k) == IF Pos(st[c], k) = 0 THEN Ask("b", 0) ELSE Upd(c, Drop(st[c], k), "b", 1)
Remove(c, k, v) ==
    LET vs == ValuesOf(st[c], k) IN
    IF Find(vs, v) = 0 THEN Ask("b", 0) ELSE Upd(c, Put(st[c], k, Without(vs, Find(vs, v))), "b", 1)
RemoveSelf(c, k, i) == IF i < 0 \/ i >= Len(ValuesOf(st[c], k)) THEN Err ELSE Remove(c, k, ValuesOf(st[c], k)[i + 1])
HasKey(c, k) == Ask("b", B(Pos(st[c], k) # 0))
Has(c, k, v) == Ask("b", B(Find(ValuesOf(st[c], k), v) # 0))
Get(c, k) == IF Pos(st[c], k) = 0 THEN Err ELSE Ask("l", ValuesOf(st[c], k))
GetByIndex(c, i) == IF i < 0 \/ i >= Len(st[c]) THEN Err ELSE Ask("l", st[c][i + 1][2])
Count(c) == Ask("i", Len(st[c]))
JoinOf(c, d) == Ask("j", Join(st[c], st[d]))
Clear(c) == Upd(c, <<>>, "b", 1)
Fresh(c) == Upd(c, <<>>, "ok", 0)
MoveTo(c, d) == st' = [st EXCEPT ![c] = st[d], ![d] = <<>>] /\ ret' = <<"ok", 0>>

AddNames == {"add", "addcm", "addmc", "addmm", "addpair", "addpairm"}
Do(o) ==
    CASE o[1] \in AddNames -> Add(o[2], o[3], o[4])
      [] o[1] = "addself" -> AddSelf(o[2], o[3], o[4], o[5])
      [] o[1] = "removekey" -> RemoveKey(o[2], o[3])
      [] o[1] = "remove" -> Remove(o[2], o[3], o[4])
      [] o[1] = "removeself" -> RemoveSelf(o[2], o[3], o[4])
      [] o[1] = "haskey" -> HasKey(o[2], o[3])
      [] o[1] = "has" -> Has(o[2], o[3], o[4])
      [] o[1] \in {"get", "at"} -> Get(o[2], o[3])
      [] o[1] = "getbyindex" -> GetByIndex(o[2], o[3])
      [] o[1] = "count" -> Count(o[2])
      [] o[1] = "join" -> JoinOf(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "fresh" -> Fresh(o[2])
      [] o[1] \in {"move", "movector"} -> MoveTo(o[2], o[3])

Total(s) == LET RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Len(Flat(s[c])) + Len(s[c]) + Sum(S \ {c})
            IN Sum(DOMAIN s)
Room(c, k) == Len(ValuesOf(st[c], k)) < MaxVals
Ops == UNION {
       {<<n, c, k, v>> : n \in AddNames, k \in {x \in Keys : Room(c, x)}, v \in Vals}
  \cup {<<"addself", c, k, k2, i>> : k \in {x \in Keys : Room(c, x)}, k2 \in Keys, i \in 0..MaxVals}
  \cup {<<n, c, k>> : n \in {"removekey", "haskey", "get", "at"}, k \in Keys}
  \cup {<<n, c, k, v>> : n \in {"remove", "has"}, k \in Keys, v \in Vals}
  \cup {<<"removeself", c, k, i>> : k \in Keys, i \in 0..MaxVals}
  \cup {<<"getbyindex", c, i>> : i \in -1..Len(st[c])}
  \cup {<<n, c>> : n \in {"count", "clear", "fresh"}}
  \cup {<<"join", c, d>> : d \in Groups}
  \cup {<<n, c, d>> : n \in {"move", "movector"}, d \in Groups \ {c}} : c \in Groups}

Start == [c \in Groups |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
Ascending == \A c \in Groups : \A i, j \in 1..Len(st[c]) : i < j => st[c][i][1] < st[c][j][1]
NoEmptyKey == \A c \in Groups : \A i \in 1..Len(st[c]) : st[c][i][2] # <<>>
OnlyThatKey == [][op'[1] \in AddNames \cup {"removekey", "remove", "removeself", "addself"} =>
    \A k \in Keys \ {op'[3]} : ValuesOf(st'[op'[2]], k) = ValuesOf(st[op'[2]], k)]_vars
AddAppends == [][op'[1] \in AddNames => ValuesOf(st'[op'[2]], op'[3]) = Append(ValuesOf(st[op'[2]], op'[3]), op'[4])]_vars
RemoveReports == [][op'[1] \in {"remove", "removekey"} => (ret'[2] = 1) = (st' # st)]_vars
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars
\* the join splits the keys of both sides into three disjoint, complete classes
JoinComplete == \A c, d \in Groups :
    LET J == Join(st[c], st[d])
        K(s) == {s[i][1] : i \in 1..Len(s)}
        Of(n) == {J[i][2] : i \in {x \in 1..Len(J) : J[x][1] = n}}
    IN /\ Of(3) = K(st[c]) \cap K(st[d])
       /\ Of(1) = K(st[c]) \ K(st[d])
       /\ Of(2) = K(st[d]) \ K(st[c])
       /\ Len(J) = Cardinality(K(st[c]) \cup K(st[d]))

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ st' = e.s
            /\ \A c \in Groups : Flat(st'[c]) = e.en[c]
            /\ CheckLife => e.bad = 0 /\ e.live = Total(st') /\ e.mem = 0
=============================================================================
