-------------------------------- MODULE Seq --------------------------------
(* Lists and arrays as mathematical sequences (properties C03, C04).         *)
(* `st` maps every container name to its contents. One action per public     *)
(* operation; Do(o) performs the operation described by the tuple o, whose   *)
(* first component is the operation's name. `ret` is what the caller sees.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lists, Arrays,    \* names of the list and array variables
          Vals,             \* element values used by the bounded model
          MaxLen,           \* length bound of the bounded model
          Default,          \* the value of a default-constructed element
          CheckLife         \* whether traces are also held to element lifetimes (C04)

VARIABLES st, ret, op
vars == <<st, ret, op>>
Conts == Lists \cup Arrays

TypeOK == \A c \in Conts : \A i \in 1..Len(st[c]) : st[c][i] \in Vals \cup {Default}

(* ------------------------------ sequence algebra ------------------------- *)
InsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
RemoveSlice(s, i, n) == SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s))
Find(s, v) ==   \* first position (0-based) of v, or -1
    LET P == {i \in 1..Len(s) : s[i] = v}
    IN IF P = {} THEN -1 ELSE (CHOOSE i \in P : \A j \in P : i <= j) - 1
In(c, i) == i >= 0 /\ i < Len(st[c])
Resized(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE Default]

(* ------------------------------ outcomes --------------------------------- *)
Err == st' = st /\ ret' = <<"err", 0>>
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Put(c, s, k, v) == st' = [st EXCEPT ![c] = s] /\ ret' = <<k, v>>
B(b) == IF b THEN 1 ELSE 0

(* ------------------------------ operations ------------------------------- *)
Add(c, v) == Put(c, Append(st[c], v), "i", Len(st[c]))
AddSelf(c, i) == IF In(c, i) THEN Add(c, st[c][i + 1]) ELSE Err
\* append a value moved out of position i, then give position i the value v
AddSelfMove(c, i, v) ==
    IF In(c, i) THEN Put(c, Append([st[c] EXCEPT ![i + 1] = v], st[c][i + 1]), "i", Len(st[c])) ELSE Err
Insert(c, i, v) == IF i >= 0 /\ i <= Len(st[c]) THEN Put(c, InsertAt(st[c], i, v), "i", i) ELSE Err
InsertSelf(c, i, j) == IF In(c, j) THEN Insert(c, i, st[c][j + 1]) ELSE Err
Set(c, i, v) == IF In(c, i) THEN Put(c, [st[c] EXCEPT ![i + 1] = v], "b", 1) ELSE Err
SetSelf(c, i, j) == IF In(c, j) THEN Set(c, i, st[c][j + 1]) ELSE Err
AssignAt(c, i, v) == IF In(c, i) THEN Put(c, [st[c] EXCEPT ![i + 1] = v], "ok", 0) ELSE Err
Get(c, i) == IF In(c, i) THEN Ask("v", st[c][i + 1]) ELSE Err
IndexOf(c, v) == Ask("i", Find(st[c], v))
Contains(c, v) == Ask("b", B(Find(st[c], v) # -1))
RemoveAt(c, i) == IF In(c, i) THEN Put(c, RemoveSlice(st[c], i, 1), "b", 1) ELSE Err
Remove(c, v) == IF Find(st[c], v) = -1 THEN Ask("b", 0)
                ELSE Put(c, RemoveSlice(st[c], Find(st[c], v), 1), "b", 1)
RemoveSelf(c, i) == IF In(c, i) THEN Remove(c, st[c][i + 1]) ELSE Err
RemoveRange(c, i, n) ==
    IF i >= 0 /\ n >= 0 /\ i + n <= Len(st[c]) THEN Put(c, RemoveSlice(st[c], i, n), "b", 1) ELSE Err
Clear(c) == Put(c, <<>>, "b", 1)
MoveTo(c, d) == st' = [st EXCEPT ![c] = st[d], ![d] = <<>>] /\ ret' = <<"ok", 0>>
Fresh(c) == Put(c, <<>>, "ok", 0)
FromRaw(c, s) == Put(c, s, "ok", 0)
NewArray(c, n) == IF n >= 0 THEN Put(c, Resized(<<>>, n), "ok", 0) ELSE Err
Resize(c, n) == IF n >= 0 THEN Put(c, Resized(st[c], n), "ok", 0) ELSE Err

Do(o) ==
    CASE o[1] \in {"add", "addm"} -> Add(o[2], o[3])
      [] o[1] = "addself" -> AddSelf(o[2], o[3])
      [] o[1] = "addselfm" -> AddSelfMove(o[2], o[3], o[4])
      [] o[1] \in {"insert", "insertm"} -> Insert(o[2], o[3], o[4])
      [] o[1] = "insertself" -> InsertSelf(o[2], o[3], o[4])
      [] o[1] \in {"set", "setm"} -> Set(o[2], o[3], o[4])
      [] o[1] = "setself" -> SetSelf(o[2], o[3], o[4])
      [] o[1] = "assignat" -> AssignAt(o[2], o[3], o[4])
      [] o[1] \in {"get", "at", "atm"} -> Get(o[2], o[3])
      [] o[1] = "indexof" -> IndexOf(o[2], o[3])
      [] o[1] = "contains" -> Contains(o[2], o[3])
      [] o[1] = "removeat" -> RemoveAt(o[2], o[3])
      [] o[1] = "remove" -> Remove(o[2], o[3])
      [] o[1] = "removeself" -> RemoveSelf(o[2], o[3])
      [] o[1] = "removerange" -> RemoveRange(o[2], o[3], o[4])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] \in {"move", "movector"} -> MoveTo(o[2], o[3])
      [] o[1] = "fresh" -> Fresh(o[2])
      [] o[1] = "fromraw" -> FromRaw(o[2], o[3])
      [] o[1] = "new" -> NewArray(o[2], o[3])
      [] o[1] = "resize" -> Resize(o[2], o[3])

(* ------------------------------ bounded model ---------------------------- *)
Room(c) == Len(st[c]) < MaxLen
Ix(c) == -1..(Len(st[c]) + 1)
ListOps(c) ==
    (IF Room(c) THEN
           {<<n, c, v>> : n \in {"add", "addm"}, v \in Vals}
      \cup {<<"addself", c, i>> : i \in Ix(c)}
      \cup {<<"addselfm", c, i, v>> : i \in Ix(c), v \in Vals}
      \cup {<<n, c, i, v>> : n \in {"insert", "insertm"}, i \in Ix(c), v \in Vals}
      \cup {<<"insertself", c, i, j>> : i \in Ix(c), j \in Ix(c)}
     ELSE {})
      \cup {<<"remove", c, v>> : v \in Vals}
      \cup {<<"removeat", c, i>> : i \in Ix(c)}
      \cup {<<"removeself", c, i>> : i \in Ix(c)}
      \cup {<<"removerange", c, i, n>> : i \in Ix(c), n \in (-1)..(MaxLen + 1)}
      \cup {<<"clear", c>>, <<"fresh", c>>}
ArrayOps(c) ==
      {<<"new", c, n>> : n \in (-1)..MaxLen}
      \cup {<<"resize", c, n>> : n \in (-1)..MaxLen}
      \cup {<<"fromraw", c, s>> : s \in UNION {[1..n -> Vals] : n \in 0..2}}
CommonOps(c) ==
      {<<n, c, i, v>> : n \in {"set", "setm", "assignat"}, i \in Ix(c), v \in Vals}
      \cup {<<"setself", c, i, j>> : i \in Ix(c), j \in Ix(c)}
      \cup {<<n, c, i>> : n \in {"get", "at", "atm"}, i \in Ix(c)}
      \cup {<<n, c, v>> : n \in {"indexof", "contains"}, v \in Vals}
PairOps == {<<n, c, d>> : n \in {"move", "movector"}, c \in Conts, d \in Conts}
Ops == UNION {ListOps(c) \cup CommonOps(c) : c \in Lists}
       \cup UNION {ArrayOps(c) \cup CommonOps(c) : c \in Arrays}
       \cup {o \in PairOps : o[2] # o[3] /\ ({o[2], o[3]} \subseteq Lists \/ {o[2], o[3]} \subseteq Arrays)}

Init == st = [c \in Conts |-> <<>>] /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
Total(s) == LET RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Len(s[c]) + Sum(S \ {c})
            IN Sum(DOMAIN s)
\* an operation that reports an error has changed nothing
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars
\* only the named container changes, except for moves, which conserve elements
Locality == [][\A c \in Conts : st'[c] # st[c] => op'[2] = c \/ (op'[1] \in {"move", "movector"} /\ op'[3] = c)]_vars
SizeDelta == [][
    LET d == Total(st') - Total(st) IN
    /\ op'[1] \in {"add", "addm", "addself", "addselfm", "insert", "insertm", "insertself"} => d = B(ret'[1] = "i")
    /\ op'[1] \in {"remove", "removeat", "removeself"} => d = (IF ret' = <<"b", 1>> THEN -1 ELSE 0)
    /\ op'[1] = "removerange" /\ ret'[1] = "b" => d = -op'[4] ]_vars
FoundIsFirst == [][op'[1] = "indexof" /\ ret'[2] # -1 =>
    /\ st[op'[2]][ret'[2] + 1] = op'[3]
    /\ \A j \in 1..ret'[2] : st[op'[2]][j] # op'[3]]_vars
InsertThenRemoveIsIdentity ==
    \A c \in Lists : \A i \in 0..Len(st[c]) : \A v \in Vals : RemoveSlice(InsertAt(st[c], i, v), i, 1) = st[c]

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = [c \in Conts |-> <<>>] /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ st' = e.s
            /\ CheckLife => e.bad = 0 /\ e.live = Total(st') /\ e.mem = 0
=============================================================================
