-------------------------------- MODULE Alloc -------------------------------
(* Push-only allocators and byte maps (property C23).                          *)
(* objs: the values of the objects handed out, by index; maps[m]: the keys      *)
(* stored in map m with their values (0 stands for "nothing").                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Maps, Keys, Vals, MaxObjs
VARIABLES st, ret, op
vars == <<st, ret, op>>

Nothing == [k \in Keys |-> 0]
Create == LET n == Len(st.objs) + 1 IN
          st' = [st EXCEPT !.objs = Append(@, 0)] /\ ret' = <<"obj", n>>
\* indices are 0-based in the interface; object number i + 1 has index i
Get(i) == st' = st /\ ret' = IF i < Len(st.objs) THEN <<"obj", i + 1>> ELSE <<"null", 0>>
Write(i, v) == IF i < Len(st.objs) THEN st' = [st EXCEPT !.objs[i + 1] = v] /\ ret' = <<"ok", 0>>
               ELSE st' = st /\ ret' = <<"skip", 0>>
Put(m, k, v) == st' = [st EXCEPT !.maps[m][k] = v] /\ ret' = <<"ok", 0>>
Look(m, k) == st' = st /\ ret' = <<"v", st.maps[m][k]>>
\* all keys at once
Dump(m) == st' = st /\ ret' = <<"all", [i \in 1..Cardinality(Keys) |-> st.maps[m][i - 1]]>>
\* a new map takes the place of m; what the old one stored does not matter any more
Renew(m) == st' = [st EXCEPT !.maps[m] = Nothing] /\ ret' = <<"ok", 0>>

Do(o) ==
    CASE o[1] = "create" -> Create
      [] o[1] = "get" -> Get(o[2])
      [] o[1] = "write" -> Write(o[2], o[3])
      [] o[1] = "put" -> Put(o[2], o[3], o[4])
      [] o[1] = "look" -> Look(o[2], o[3])
      [] o[1] = "dump" -> Dump(o[2])
      [] o[1] = "renew" -> Renew(o[2])

Ops == (IF Len(st.objs) < MaxObjs THEN {<<"create">>} ELSE {})
  \cup {<<"get", i>> : i \in 0..MaxObjs} \cup {<<"write", i, v>> : i \in 0..(MaxObjs - 1), v \in Vals}
  \cup {<<"put", m, k, v>> : m \in Maps, k \in Keys, v \in Vals \cup {0}} \cup {<<"look", m, k>> : m \in Maps, k \in Keys}
  \cup {<<"renew", m>> : m \in Maps}
Start == [objs |-> <<>>, maps |-> [m \in Maps |-> Nothing]]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
\* for the walks: stores are shown as sequences of key/value pairs
Show(s) == [objs |-> s.objs, maps |-> [m \in Maps |-> {<<k, s.maps[m][k]>> : k \in Keys}]]
Emit == PrintT("EDGE " \o ToJson(<<Show(st), op', Show(st')>>))
AllBytes == 0..255
SomeBytes == {0, 1, 4, 64, 255}

(* ------------------------------ properties ------------------------------- *)
\* an allocation gives an object nobody has yet and leaves the others alone
FreshObject == [][op'[1] = "create" => ret'[2] = Len(st'.objs) /\ SubSeq(st'.objs, 1, Len(st.objs)) = st.objs]_vars
NeverShrinks == [][Len(st'.objs) >= Len(st.objs)]_vars
\* a store changes exactly one key of one map
OneKey == [][op'[1] = "put" => \A m \in Maps, k \in Keys :
                st'.maps[m][k] = IF m = op'[2] /\ k = op'[3] THEN op'[4] ELSE st.maps[m][k]]_vars
ReadsChangeNothing == [][op'[1] \in {"get", "look", "dump"} => st' = st]_vars
WriteHits == [][op'[1] = "write" /\ ret'[1] = "ok" => \A i \in 1..Len(st.objs) : i # op'[2] + 1 => st'.objs[i] = st.objs[i]]_vars

(* ------------------------------ traces ----------------------------------- *)
\* e.objs: values read through the pointers handed out at creation; e.same: they are what Get gives;
\* e.live, e.bad, e.left: objects alive and lifetime errors (see the harness), after a reset nothing is left
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ e.objs = st'.objs /\ e.same = 1 /\ e.bad = 0
            /\ e.live >= Len(st'.objs)
            /\ e.o[1] = "reset" => e.live = 0 /\ e.left = 0
=============================================================================
