-------------------------------- MODULE Fun --------------------------------
(* Function objects (property C16). Slots of two different signatures (SF and  *)
(* SG) refer to invokers, 0 meaning empty. An invoker is                       *)
(*   <<"s", k>> free function k, <<"m", k>> method of object k,                *)
(*   <<"l", c>> functor number c, carrying a call counter shared by all copies *)
(*              of the function object, destroyed with the last of them,       *)
(*   <<"w", i>> conversion of another signature's function object, which keeps *)
(*              invoker i.                                                     *)
(* A call reaches the innermost callable once, with the same argument.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SF, SG, MaxInv
VARIABLES st, ret, op
vars == <<st, ret, op>>

Names == SF \cup SG
Same(a, b) == {a, b} \subseteq SF \/ {a, b} \subseteq SG
B(b) == IF b THEN 1 ELSE 0
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Okay(s) == st' = s /\ ret' = <<"ok", 0>>
SetSlot(s, n, i) == [s EXCEPT !.slot[n] = i]
New(n, v) == Okay(SetSlot([st EXCEPT !.inv = Append(@, v)], n, Len(st.inv) + 1))
NewFunctor(n) == Okay(SetSlot([st EXCEPT !.inv = Append(@, <<"l", Len(st.cnt) + 1>>), !.cnt = Append(@, 0)], n, Len(st.inv) + 1))
Copy(n, m) == Okay(SetSlot(st, n, st.slot[m]))
Move(n, m) == IF n = m THEN Ask("ok", 0) ELSE Okay([st EXCEPT !.slot[n] = st.slot[m], !.slot[m] = 0])
Convert(n, m) == IF st.slot[m] = 0 THEN Okay(SetSlot(st, n, 0)) ELSE New(n, <<"w", st.slot[m]>>)
ConvertMove(n, m) == IF st.slot[m] = 0 THEN Okay(SetSlot(st, n, 0))
    ELSE Okay([st EXCEPT !.inv = Append(@, <<"w", st.slot[m]>>), !.slot[n] = Len(st.inv) + 1, !.slot[m] = 0])

RECURSIVE Inner(_, _)
Inner(s, i) == IF s.inv[i][1] = "w" THEN Inner(s, s.inv[i][2]) ELSE i
\* result of a call: which callable got it, its own count of calls, and the argument it saw
Call(n, x) ==
    IF st.slot[n] = 0 THEN Ask("skip", 0)
    ELSE LET i == Inner(st, st.slot[n])  v == st.inv[i] IN
         IF v[1] = "l" THEN st' = [st EXCEPT !.cnt[v[2]] = @ + 1] /\ ret' = <<"call", <<"l", v[2], st.cnt[v[2]] + 1, x>>>>
         ELSE Ask("call", <<v[1], v[2], 1, x>>)

(* calls of other signatures, built in the way `how`: the outcome is the       *)
(* argument as the callable saw it and what the caller has afterwards          *)
Signature(kind, how, x) ==
    CASE kind = "ref" -> Ask("sig", <<x, x + 1>>)          \* void(long&): the caller's variable is changed
      [] kind = "constref" -> Ask("sig", <<x, x>>)         \* long(const Tracked&)
      [] kind = "byvalue" -> Ask("sig", <<x, x>>)          \* long(Tracked): the caller keeps its own
      [] kind = "rvalue" -> Ask("sig", <<x, x>>)           \* long(MoveOnly&&): only looks at it
      [] kind = "moveonly" -> Ask("sig", <<x, -77>>)       \* MoveOnly(MoveOnly)
      [] kind = "refresult" -> Ask("sig", <<x, x + 10>>)   \* long&(long&): the same variable comes back
      [] kind = "many" -> Ask("sig", <<x, x + 6>>)         \* long(long, short, const WString&, Tracked)
      [] kind = "none" -> Ask("sig", <<0, 1>>)             \* void()

Do(o) ==
    CASE o[1] = "static" -> New(o[2], <<"s", o[3]>>)
      [] o[1] = "method" -> New(o[2], <<"m", o[3]>>)
      [] o[1] = "pointer" -> New(o[2], <<"s", o[3]>>)
      [] o[1] \in {"functor", "functorm", "lambda"} -> NewFunctor(o[2])
      [] o[1] \in {"copy", "copyctor"} -> Copy(o[2], o[3])
      [] o[1] \in {"move", "movector"} -> Move(o[2], o[3])
      [] o[1] \in {"convert", "convertctor"} -> Convert(o[2], o[3])
      [] o[1] = "convertm" -> ConvertMove(o[2], o[3])
      [] o[1] = "null" -> Okay(SetSlot(st, o[2], 0))
      [] o[1] = "call" -> Call(o[2], o[3])
      [] o[1] = "bool" -> Ask("b", B(st.slot[o[2]] # 0))
      [] o[1] = "eq" -> Ask("b", B(st.slot[o[2]] = st.slot[o[3]]))
      [] o[1] = "sig" -> Signature(o[2], o[3], o[4])
      [] o[1] = "finish" -> Okay([st EXCEPT !.slot = [n \in Names |-> 0]])

Room == Len(st.inv) < MaxInv
Ops == UNION {
       (IF Room THEN {<<k, n, i>> : k \in {"static", "method", "pointer"}, i \in {1, 2}} \cup {<<k, n>> : k \in {"functor", "functorm", "lambda"}} ELSE {})
  \cup {<<k, n, m>> : k \in {"copy", "move", "eq"}, m \in {x \in Names : Same(n, x)}}
  \cup {<<k, n, m>> : k \in {"copyctor", "movector"}, m \in {x \in Names : Same(n, x)} \ {n}}
  \cup {<<k, n, m>> : k \in {"convert", "convertctor", "convertm"}, m \in {x \in Names : ~Same(n, x) /\ (Room \/ st.slot[x] = 0)}}
  \cup {<<"null", n>>, <<"bool", n>>} \cup {<<"call", n, x>> : x \in IF st.slot[n] = 0 \/ \A c \in 1..Len(st.cnt) : st.cnt[c] < 2 THEN {5} ELSE {}} : n \in Names}

Start == [slot |-> [n \in Names |-> 0], inv |-> <<>>, cnt |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
RECURSIVE Reach(_, _)
Reach(s, i) == IF i = 0 THEN {} ELSE {i} \cup (IF s.inv[i][1] = "w" THEN Reach(s, s.inv[i][2]) ELSE {})
Alive(s) == UNION {Reach(s, s.slot[n]) : n \in Names}
Functors(s) == {i \in Alive(s) : s.inv[i][1] = "l"}
CopiesShare == [][op'[1] \in {"copy", "copyctor"} => st'.slot[op'[2]] = st.slot[op'[3]] /\ st'.inv = st.inv]_vars
MovedFromEmpty == [][op'[1] \in {"move", "movector", "convertm"} /\ op'[2] # op'[3] => st'.slot[op'[3]] = 0]_vars
OneCall == [][op'[1] = "call" => \A c \in 1..Len(st.cnt) : st'.cnt[c] - st.cnt[c] \in {0, 1} /\ (st'.cnt[c] # st.cnt[c] => \E i \in Functors(st) : st.inv[i] = <<"l", c>>)]_vars
\* what is unreachable stays unreachable
DeadStaysDead == [][\A i \in 1..Len(st.inv) : i \notin Alive(st) => i \notin Alive(st')]_vars

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ e.bad = 0
            /\ e.live = Cardinality(Functors(st'))
            /\ \A n \in Names : e.set[n] = B(st'.slot[n] # 0)
            /\ \A n \in SF, m \in SF : <<n, m, B(st'.slot[n] = st'.slot[m])>> \in {e.same[i] : i \in 1..Len(e.same)}
            /\ \A n \in SG, m \in SG : <<n, m, B(st'.slot[n] = st'.slot[m])>> \in {e.same[i] : i \in 1..Len(e.same)}
=============================================================================
