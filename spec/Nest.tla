-------------------------------- MODULE Nest --------------------------------
(* Owners that own owners (property C28). A slot is an owner: it holds a      *)
(* sequence of nodes <<value, kids>>, kids being the owner inside the node.   *)
(* Kind "one": at most one node (pointers, optional values, variants,         *)
(* function objects); "seq": any number, in order of insertion (List, Array); *)
(* "keyed": ordered by value, values differ (SortedList, Dictionary, Group).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Vals, Kind, MaxNodes
VARIABLES st, ret, op
vars == <<st, ret, op>>

RECURSIVE Size(_)
Size(t) == IF t = <<>> THEN 0 ELSE 1 + Size(Head(t)[2]) + Size(Tail(t))
RECURSIVE SumOf(_, _)
SumOf(s, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Size(s[c]) + SumOf(s, S \ {c})
Total(s) == SumOf(s, Slots)

Node(v, k) == <<v, k>>
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
WithKids(s, i, k) == [s EXCEPT ![i] = Node(s[i][1], k)]
Below(s, v) == Cardinality({i \in DOMAIN s : s[i][1] < v})
Place(s, v) == IF Kind = "keyed" THEN Below(s, v) ELSE Len(s)
Added(s, n) == LET p == Place(s, n[1]) IN SubSeq(s, 1, p) \o <<n>> \o SubSeq(s, p + 1, Len(s))

Set(c, s) == st' = [st EXCEPT ![c] = s] /\ ret' = <<"ok", 0>>

\* everything in the owner goes into a new node of the same owner
Wrap(c, v) == Set(c, <<Node(v, st[c])>>)
Push(c, v) == /\ Kind # "one"
              /\ Kind = "keyed" => \A i \in DOMAIN st[c] : st[c][i][1] # v
              /\ Set(c, Added(st[c], Node(v, <<>>)))
\* the owner becomes the one inside its i-th node; everything else in it is released
Lift(c, i) == i \in DOMAIN st[c] /\ Set(c, st[c][i][2])
\* ... given as the node itself, where an owner can be assigned from what it holds
LiftNode(c) == Kind = "one" /\ st[c] # <<>> /\ st[c][1][2] # <<>> /\ Set(c, st[c][1][2])
\* two levels down
Lift2(c, i) == i \in DOMAIN st[c] /\ st[c][i][2] # <<>> /\ Set(c, st[c][i][2][1][2])
\* the owner inside is moved to another slot and stays, empty
Take(c, d, i) == /\ c # d /\ i \in DOMAIN st[d]
                 /\ st' = [st EXCEPT ![c] = st[d][i][2], ![d] = WithKids(st[d], i, <<>>)]
                 /\ ret' = <<"ok", 0>>
\* a slot is moved into an owner inside another slot
Plant(c, d, i) == /\ c # d /\ i \in DOMAIN st[d]
                  /\ st' = [st EXCEPT ![c] = <<>>, ![d] = WithKids(st[d], i, st[c])]
                  /\ ret' = <<"ok", 0>>
Drop(c, i) == i \in DOMAIN st[c] /\ Set(c, Without(st[c], i))
Move(c, d) == c # d /\ st' = [st EXCEPT ![c] = st[d], ![d] = <<>>] /\ ret' = <<"ok", 0>>

Do(o) ==
    CASE o[1] = "wrap" -> Wrap(o[2], o[3])
      [] o[1] = "push" -> Push(o[2], o[3])
      [] o[1] \in {"lift", "liftcopy"} -> Lift(o[2], o[3])
      [] o[1] \in {"liftnode", "liftnodem"} -> LiftNode(o[2])
      [] o[1] = "lift2" -> Lift2(o[2], o[3])
      [] o[1] = "take" -> Take(o[2], o[3], o[4])
      [] o[1] = "plant" -> Plant(o[2], o[3], o[4])
      [] o[1] = "drop" -> Drop(o[2], o[3])
      [] o[1] = "clear" -> Set(o[2], <<>>)
      [] o[1] = "move" -> Move(o[2], o[3])

At == IF Kind = "one" THEN {1} ELSE {1, 2}
Ops == UNION {
       {<<n, c, v>> : n \in {"wrap", "push"}, v \in Vals}
  \cup {<<n, c, i>> : n \in {"lift", "lift2", "drop"}, i \in At}
  \cup (IF Kind = "one" THEN {<<"liftcopy", c, 1>>, <<"liftnode", c>>, <<"liftnodem", c>>} ELSE {})
  \cup {<<n, c, d, i>> : n \in {"take", "plant"}, d \in Slots, i \in At}
  \cup {<<"move", c, d>> : d \in Slots}
  \cup {<<"clear", c>>} : c \in Slots}

Start == [c \in Slots |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o /\ Total(st') <= MaxNodes
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
RECURSIVE Legal(_)
Legal(t) == /\ Kind = "one" => Len(t) <= 1
            /\ Kind = "keyed" => \A i \in 1..Len(t) - 1 : t[i][1] < t[i + 1][1]
            /\ \A i \in DOMAIN t : Legal(t[i][2])
WellFormed == \A c \in Slots : Legal(st[c])
\* what is kept was there before, and nothing comes into being
RECURSIVE Subtrees(_)
Subtrees(t) == {t} \cup UNION {Subtrees(t[i][2]) : i \in DOMAIN t}
Lifts == {"lift", "liftcopy", "liftnode", "liftnodem", "lift2"}
LiftKeepsAPart == [][op'[1] \in Lifts => st'[op'[2]] \in Subtrees(st[op'[2]]) /\ Size(st'[op'[2]]) < Size(st[op'[2]])]_vars
NothingLost == [][op'[1] \in {"wrap", "push"} => Total(st') = Total(st) + 1]_vars
TakeKeepsAll == [][op'[1] = "take" => Size(st'[op'[2]]) + Size(st'[op'[3]]) = Size(st[op'[3]])]_vars
Locality == [][\A c \in Slots : st'[c] # st[c] => c = op'[2] \/ (op'[1] \in {"take", "plant", "move"} /\ c = op'[3])]_vars

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
\* live: nodes that exist; bad: uses of nodes that do not exist, or double destruction
Match(e) == ret' = e.r /\ st' = e.s /\ e.bad = 0 /\ e.mem = 0 /\ e.live = Total(st')
=============================================================================
