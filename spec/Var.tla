-------------------------------- MODULE Var --------------------------------
(* Variants (property C18). A slot holds one alternative, <<alt, value>>:     *)
(*   "a"  a type that can be moved (a moved-from one reads -77)               *)
(*   "b"  a type that can only be copied                                      *)
(*   "l"  a plain integer                                                     *)
(*   "x"  a box owning another variant, value <<alt, value>>, or <<>> after   *)
(*        it was moved from; assigning what is inside the box to the variant  *)
(*        that holds the box is part of the histories.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Vals, Order, MaxDepth
VARIABLES st, ret, op
vars == <<st, ret, op>>

Order1 == <<"a", "b", "l", "x">>
Order2 == <<"l", "x", "b", "a">>
Order3 == <<"b", "x", "a", "l">>
Alts == {"a", "b", "l"}
Index(alt) == (CHOOSE i \in 1..Len(Order) : Order[i] = alt) - 1
MovedVal(alt, v) == CASE alt = "a" -> -77 [] alt = "b" -> v [] alt = "l" -> v [] alt = "x" -> <<>>
Moved(w) == <<w[1], MovedVal(w[1], w[2])>>
B(b) == IF b THEN 1 ELSE 0
Err == st' = st /\ ret' = <<"err", 0>>
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Put(c, w) == st' = [st EXCEPT ![c] = w] /\ ret' = <<"ok", 0>>
RECURSIVE Depth(_)
Depth(w) == IF w[1] = "x" /\ w[2] # <<>> THEN 1 + Depth(w[2]) ELSE IF w[1] = "x" THEN 1 ELSE 0
Default == IF Order[1] = "x" THEN <<"x", <<>>>> ELSE <<Order[1], 0>>

Copy(c, d) == Put(c, st[d])
Move(c, d) == IF c = d THEN Ask("ok", 0)
              ELSE st' = [st EXCEPT ![c] = st[d], ![d] = Moved(st[d])] /\ ret' = <<"ok", 0>>
Is(c, alt) == st[c][1] = alt
Boxed(c) == st[c][1] = "x" /\ st[c][2] # <<>>
Get(c, alt) == IF Is(c, alt) THEN Ask("v", st[c][2]) ELSE Err
TryGet(c, alt) == IF Is(c, alt) THEN Ask("v", st[c][2]) ELSE Ask("none", 0)
GetMove(c, alt) == IF Is(c, alt) THEN st' = [st EXCEPT ![c] = Moved(st[c])] /\ ret' = <<"v", st[c][2]>> ELSE Err
Apply(c) == IF Is(c, "x") THEN Ask("ap", <<Index("x"), 0>>) ELSE Ask("ap", <<Index(st[c][1]), st[c][2]>>)
\* a visitor that changes what it is given
ApplyMut(c) == IF Is(c, "x") THEN Put(c, <<"x", <<>>>>) ELSE Put(c, <<st[c][1], st[c][2] + 1>>)
TryApply(c, alt) == IF Is(c, alt) THEN Ask("v", st[c][2]) ELSE Ask("none", 0)
Wrap(c, d) == Put(c, <<"x", st[d]>>)
Unwrap(c) == IF Boxed(c) THEN Put(c, st[c][2]) ELSE Ask("skip", 0)
\* assigning the alternative inside the box, not the variant inside: the same, also if it is another box
UnwrapValue(c) == Unwrap(c)

Stores == {"new", "newm", "newidx", "newcast", "set", "setm", "setidx", "setcast"}
Do(o) ==
    CASE o[1] \in Stores -> Put(o[2], <<o[3], o[4]>>)
      [] o[1] = "newdef" -> Put(o[2], Default)
      [] o[1] \in {"copyctor", "copy"} -> Copy(o[2], o[3])
      [] o[1] \in {"movector", "move"} -> Move(o[2], o[3])
      [] o[1] \in {"get", "getc"} -> Get(o[2], o[3])
      [] o[1] = "getm" -> GetMove(o[2], o[3])
      [] o[1] \in {"tryget", "trygetc"} -> TryGet(o[2], o[3])
      [] o[1] = "index" -> Ask("i", Index(st[o[2]][1]))
      [] o[1] \in {"apply", "applyc"} -> Apply(o[2])
      [] o[1] = "applymut" -> ApplyMut(o[2])
      [] o[1] \in {"tryapply", "tryapplyc"} -> TryApply(o[2], o[3])
      [] o[1] \in {"wrap", "wrapm"} -> Wrap(o[2], o[3])
      [] o[1] \in {"unwrap", "unwrapm"} -> Unwrap(o[2])
      [] o[1] \in {"unwrapv", "unwrapvm"} -> UnwrapValue(o[2])
      [] o[1] = "unwrapk" -> IF Is(o[2], "x") THEN Put(o[2], <<"a", 7>>) ELSE Ask("skip", 0)
      [] o[1] = "setself" -> Ask("ok", 0)

Ops == UNION {
       {<<n, c, alt, v>> : n \in Stores, alt \in Alts, v \in Vals}
  \cup {<<n, c, alt>> : n \in {"get", "getc", "getm", "tryget", "trygetc", "tryapply", "tryapplyc"}, alt \in Alts}
  \cup {<<n, c>> : n \in {"newdef", "index", "apply", "applyc", "unwrap", "unwrapm", "unwrapv", "unwrapvm", "unwrapk", "setself"}}
  \cup {<<"applymut", c>> : z \in IF Is(c, "x") \/ st[c][2] = 1 THEN {1} ELSE {}}
  \cup {<<n, c, d>> : n \in {"copy", "move"}, d \in Slots}
  \cup {<<n, c, d>> : n \in {"copyctor", "movector"}, d \in Slots \ {c}}
  \cup {<<n, c, d>> : n \in {"wrap", "wrapm"}, d \in {e \in Slots : Depth(st[e]) < MaxDepth}} : c \in Slots}

Start == [c \in Slots |-> Default]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
OneAlternative == \A c \in Slots : st[c][1] \in Alts \cup {"x"} /\ Len(st[c]) = 2
ErrorChangesNothing == [][ret'[1] = "err" => st' = st]_vars
LastAssigned == [][op'[1] \in Stores => st'[op'[2]] = <<op'[3], op'[4]>>]_vars
MoveKeepsAlternative == [][op'[1] \in {"move", "movector"} =>
    st'[op'[2]] = st[op'[3]] /\ st'[op'[3]][1] = st[op'[3]][1]]_vars
Locality == [][\A c \in Slots : st'[c] # st[c] => c = op'[2] \/ (op'[1] \in {"move", "movector"} /\ c = op'[3])]_vars
WrongTypeNeverRead == [][op'[1] \in {"get", "getc", "getm", "tryget", "trygetc", "tryapply", "tryapplyc"} =>
    (ret'[1] = "v") = (st[op'[2]][1] = op'[3])]_vars

(* ------------------------------ traces ----------------------------------- *)
RECURSIVE Objects(_)
Objects(w) == CASE w[1] = "l" -> 0 [] w[1] \in {"a", "b"} -> 1 [] w[1] = "x" -> 1 + (IF w[2] = <<>> THEN 0 ELSE Objects(w[2]))
RECURSIVE SumOver(_, _)
SumOver(s, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Objects(s[c]) + SumOver(s, S \ {c})
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ st' = e.s /\ e.bad = 0 /\ e.mem = 0 /\ e.live = SumOver(st', Slots)
=============================================================================
