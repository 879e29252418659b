-------------------------------- MODULE Obs --------------------------------
(* Observers of collections (property C22). obs[c]: the observer attached to   *)
(* the collection in slot c (0 none, -1 no collection there); told[i]: how     *)
(* often observer i was told of a disposal.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxObs
VARIABLES st, ret, op
vars == <<st, ret, op>>

Has(c) == st.obs[c] # -1
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Okay(s) == st' = s /\ ret' = <<"ok", 0>>
Tell(s, i) == IF i > 0 THEN [s EXCEPT !.told[i] = @ + 1] ELSE s
\* the collection in c (if any) is destroyed
Gone(s, c) == [Tell(s, s.obs[c]) EXCEPT !.obs[c] = -1]
Create(c) == Okay([Gone(st, c) EXCEPT !.obs[c] = 0])
Delete(c) == Okay(Gone(st, c))
Attach(c) == IF ~Has(c) THEN Ask("skip", 0)
             ELSE LET n == Len(st.told) + 1 IN
                  IF st.obs[c] = 0 THEN Okay([st EXCEPT !.told = Append(@, 0), !.obs[c] = n])
                  ELSE st' = [st EXCEPT !.told = Append(@, 0)] /\ ret' = <<"err", 0>>
\* the observer that is attached already is no exception
Again(c) == IF ~Has(c) \/ st.obs[c] = 0 THEN Ask("skip", 0) ELSE Ask("err", 0)
\* attaching nothing is an attachment too: it does not take the observer away
None(c) == IF ~Has(c) THEN Ask("skip", 0) ELSE IF st.obs[c] = 0 THEN Ask("ok", 0) ELSE Ask("err", 0)
\* asking for an observer of another type
Wrong(c) == IF ~Has(c) THEN Ask("skip", 0) ELSE IF st.obs[c] = 0 THEN Ask("ok", 0) ELSE Ask("err", 0)
Who(c) == IF ~Has(c) THEN Ask("skip", 0) ELSE Ask("i", 1)
Ref(c) == IF ~Has(c) THEN Ask("skip", 0) ELSE Ask("i", st.obs[c])
Touch(c) == IF ~Has(c) THEN Ask("skip", 0) ELSE Ask("ok", 0)
\* contents move or are copied between two existing collections: observers stay where they are
Between(c, d) == IF ~Has(c) \/ ~Has(d) THEN Ask("skip", 0) ELSE Ask("ok", 0)
\* a new collection is made from another one in slot c
MadeFrom(c, d) == IF ~Has(d) THEN Ask("skip", 0) ELSE Create(c)

Do(o) ==
    CASE o[1] = "create" -> Create(o[2])
      [] o[1] = "delete" -> Delete(o[2])
      [] o[1] = "attach" -> Attach(o[2])
      [] o[1] = "again" -> Again(o[2])
      [] o[1] = "none" -> None(o[2])
      [] o[1] = "wrongref" -> Wrong(o[2])
      [] o[1] = "who" -> Who(o[2])
      [] o[1] \in {"ref", "tryref"} -> Ref(o[2])
      [] o[1] \in {"touch", "loop", "selfmove"} -> Touch(o[2])
      [] o[1] \in {"move", "copy"} -> Between(o[2], o[3])
      [] o[1] \in {"movector", "copyctor"} -> MadeFrom(o[2], o[3])

Ops == UNION {{<<n, c>> : n \in {"create", "delete", "ref", "tryref", "touch", "loop", "again", "none", "wrongref", "who", "selfmove"}}
         \cup (IF Len(st.told) < MaxObs THEN {<<"attach", c>>} ELSE {})
         \cup {<<n, c, d>> : n \in {"move", "copy", "movector", "copyctor"}, d \in Slots \ {c}} : c \in Slots}
Start == [obs |-> [c \in Slots |-> -1], told |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
ToldOnce == \A i \in 1..Len(st.told) : st.told[i] <= 1
NotBefore == \A c \in Slots : st.obs[c] > 0 => st.told[st.obs[c]] = 0
OneObserverEach == \A c, d \in Slots : c # d /\ st.obs[c] > 0 => st.obs[c] # st.obs[d]
FirstKept == [][op'[1] = "attach" /\ ret'[1] = "err" => st'.obs = st.obs]_vars
ToldOnDisposal == [][\A c \in Slots : st.obs[c] > 0 /\ st'.obs[c] # st.obs[c] => st'.told[st.obs[c]] = 1]_vars

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
\* the program keeps the observers with odd numbers, the others live as long as the collection they are attached to
Alive(s) == Cardinality({i \in 1..Len(s.told) : i % 2 = 1 \/ \E c \in Slots : s.obs[c] = i})
Match(e) == ret' = e.r /\ st'.told = e.told /\ e.alive = Alive(st')
=============================================================================
