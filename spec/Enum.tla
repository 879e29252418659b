-------------------------------- MODULE Enum --------------------------------
(* Enumerators (property C08). en[i] = [seq, pos]: the sequence enumerator i     *)
(* goes through and its position: 0 before the first element, k at the k-th,     *)
(* Len(seq) + 1 at the end.                                                      *)
EXTENDS SeqAlg, Json
CONSTANTS Slots, Exprs
VARIABLES st, ret, op
vars == <<st, ret, op>>
None == [seq |-> <<>>, pos |-> -1]
S0 == <<>>
B1(b) == <<"b", IF b THEN 1 ELSE 0>>
At(x) == x.pos >= 1 /\ x.pos <= Len(x.seq)
Open(i, e) == st' = [st EXCEPT ![i] = [seq |-> Den(e, S0), pos |-> 0]] /\ ret' = <<"ok", 0>>
Step(i) == IF st[i].pos < 0 THEN st' = st /\ ret' = <<"skip", 0>>
           ELSE LET p == Min2(st[i].pos + 1, Len(st[i].seq) + 1) IN
                st' = [st EXCEPT ![i].pos = p] /\ ret' = B1(p <= Len(st[i].seq))
Clone(i, j) == IF st[i].pos < 0 THEN st' = st /\ ret' = <<"skip", 0>> ELSE st' = [st EXCEPT ![j] = st[i]] /\ ret' = <<"ok", 0>>
Rewind(i) == IF st[i].pos < 0 THEN st' = st /\ ret' = <<"skip", 0>> ELSE st' = [st EXCEPT ![i].pos = 0] /\ ret' = <<"ok", 0>>
Close(i) == st' = [st EXCEPT ![i] = None] /\ ret' = <<"ok", 0>>
Loop(e) == st' = st /\ ret' = <<"seq", Den(e, S0)>>
ILoop(e) == st' = st /\ ret' = <<"seq", LET s == Den(e, S0) IN [k \in 1..(2 * Len(s)) |-> IF k % 2 = 1 THEN s[(k + 1) \div 2] ELSE k \div 2 - 1]>>
Do(o) ==
    CASE o[1] = "open" -> Open(o[2], o[3])
      [] o[1] = "next" -> Step(o[2])
      [] o[1] = "clone" -> Clone(o[2], o[3])
      [] o[1] = "rewind" -> Rewind(o[2])
      [] o[1] = "close" -> Close(o[2])
      [] o[1] = "loop" -> Loop(o[2])
      [] o[1] = "iloop" -> ILoop(o[2])
Ops == {<<"open", i, e>> : i \in Slots, e \in Exprs} \cup {<<n, i>> : n \in {"next", "rewind", "close"}, i \in Slots}
  \cup {<<"clone", i, j>> : i \in Slots, j \in Slots}
Start == [i \in Slots |-> None]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))
Three == {<<"list", <<1, 2, 3>>>>, <<"list", <<4>>>>, <<"empty">>}
Two == {<<"list", <<1, 2>>>>, <<"empty">>}

(* ------------------------------ properties ------------------------------- *)
Bounded == \A i \in Slots : st[i].pos <= Len(st[i].seq) + 1
OthersUntouched == [][\A i \in Slots : (op'[1] = "clone" /\ i # op'[3]) \/ (op'[1] # "clone" /\ i # op'[2]) => st'[i] = st[i]]_vars
OneElementPerStep == [][op'[1] = "next" /\ ret' = <<"b", 1>> => st'[op'[2]].pos = st[op'[2]].pos + 1]_vars
EndIsFinal == [][op'[1] = "next" /\ st[op'[2]].pos = Len(st[op'[2]].seq) + 1 => ret' = <<"b", 0>>]_vars
CloneContinues == [][op'[1] = "clone" /\ ret'[1] = "ok" => st'[op'[3]] = st[op'[2]]]_vars

(* ------------------------------ traces ----------------------------------- *)
\* e.en[i]: <<Index, Current>> of every enumerator that is at an element, <<>> of the others
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == ret' = e.r /\ (e.o[1] = "reset" => e.left <= 0) /\ \A i \in Slots : e.en[i] = IF At(st'[i]) THEN <<st'[i].pos - 1, st'[i].seq[st'[i].pos]>> ELSE <<>>
=============================================================================
