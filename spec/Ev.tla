--------------------------------- MODULE Ev ---------------------------------
(* Events (property C15). Attachments ("handlers") are numbered in order of   *)
(* creation; att[h] is the event h is attached to ("-" if none), fn[h] the    *)
(* callable it calls, own[h] whether the program still keeps the handle.      *)
(* A raise in progress is a frame: the handlers attached when it began and    *)
(* not called yet (todo), the one running now, and the number of calls made.  *)
(* The order of calls is left open. Handlers may use the events themselves.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Events, MaxH, MaxFrames,
          Basic    \* TRUE: raises are single steps (handlers do nothing themselves)
VARIABLES st, ret, op
vars == <<st, ret, op>>

H == 1..Len(st.att)
Top == st.frames[Len(st.frames)]
Free == IF st.frames = <<>> THEN TRUE ELSE Top.run # 0      \* program code is running
B(b) == IF b THEN 1 ELSE 0
Ask(k, v) == st' = st /\ ret' = <<k, v>>
Grow(e, fs) == st' = [st EXCEPT !.att = @ \o [i \in 1..Len(fs) |-> e], !.fn = @ \o fs, !.own = @ \o [i \in 1..Len(fs) |-> 1], !.gone = @ \o [i \in 1..Len(fs) |-> 0], !.funs = fs[1]]
               /\ ret' = <<"i", Len(st.att) + 1>>
Fresh == st.funs + 1
Add(e) == Grow(e, <<Fresh>>)
AddTwice(e) == Grow(e, <<Fresh, Fresh>>)
Known(h) == h \in H /\ st.own[h] = 1
Remove(e, h) == IF ~Known(h) THEN Ask("skip", 0)
                ELSE IF st.att[h] # e THEN Ask("b", 0)
                ELSE st' = [st EXCEPT !.att[h] = "-"] /\ ret' = <<"b", 1>>
Drop(h) == IF ~Known(h) THEN Ask("skip", 0) ELSE st' = [st EXCEPT !.own[h] = 0] /\ ret' = <<"ok", 0>>
IsAttached(h) == IF ~Known(h) \/ st.gone[h] = 1 THEN Ask("skip", 0) ELSE Ask("b", B(st.att[h] # "-"))
\* the event object is destroyed and a new one takes its name
Renew(e) == IF st.frames # <<>> THEN Ask("skip", 0)
            ELSE st' = [st EXCEPT !.att = [h \in H |-> IF @[h] = e THEN "-" ELSE @[h]], !.gone = [h \in H |-> IF st.att[h] = e THEN 1 ELSE @[h]]] /\ ret' = <<"ok", 0>>

Raise(e, x) == st' = [st EXCEPT !.frames = Append(@, [e |-> e, x |-> x, todo |-> {h \in H : st.att[h] = e}, run |-> 0, n |-> 0])] /\ ret' = <<"ok", 0>>
Call(f, x, n) ==
    /\ st.frames # <<>> /\ Top.run = 0 /\ Top.x = x /\ Top.n = n
    /\ \E h \in Top.todo :
          /\ st.att[h] = Top.e /\ st.fn[h] = f
          /\ st' = [st EXCEPT !.frames[Len(st.frames)] = [@ EXCEPT !.todo = @ \ {h}, !.run = h, !.n = @ + 1]]
    /\ ret' = <<"ok", 0>>
Return(f) ==
    /\ st.frames # <<>> /\ Top.run # 0 /\ st.fn[Top.run] = f
    /\ st' = [st EXCEPT !.frames[Len(st.frames)].run = 0] /\ ret' = <<"ok", 0>>
End(e, n) ==
    /\ st.frames # <<>> /\ Top.run = 0 /\ Top.e = e /\ Top.n = n
    /\ {h \in Top.todo : st.att[h] = e} = {}
    /\ st' = [st EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)] /\ ret' = <<"ok", 0>>

Do(o) ==
    CASE o[1] \in {"add", "addmethod"} -> Free /\ Add(o[2])
      [] o[1] = "addtwice" -> Free /\ AddTwice(o[2])
      [] o[1] = "remove" -> Free /\ Remove(o[2], o[3])
      [] o[1] = "drop" -> Free /\ Drop(o[2])
      [] o[1] = "isattached" -> Free /\ IsAttached(o[2])
      [] o[1] = "renew" -> Free /\ Renew(o[2])
      [] o[1] \in {"raise", "raisem"} -> Free /\ IF Basic THEN Ask("ok", 0) ELSE Raise(o[2], o[3])
      [] o[1] = "call" -> Call(o[2], o[3], o[4])
      [] o[1] = "ret" -> Return(o[2])
      [] o[1] = "end" -> End(o[2], o[3])
      [] o[1] = "finish" -> st' = [st EXCEPT !.att = [h \in H |-> "-"], !.own = [h \in H |-> 0]] /\ ret' = <<"ok", 0>>

Hs == 1..(Len(st.att) + 1)
Ops == (IF Len(st.att) < MaxH THEN {<<"add", e, <<>>>> : e \in Events} ELSE {})
  \cup (IF Len(st.att) < MaxH /\ Basic THEN {<<"addmethod", e, <<>>>> : e \in Events} ELSE {})
  \cup (IF Len(st.att) < MaxH - 1 THEN {<<"addtwice", e, <<>>>> : e \in Events} ELSE {})
  \cup {<<"remove", e, h>> : e \in Events, h \in Hs}
  \cup {<<n, h>> : n \in {"drop", "isattached"}, h \in Hs}
  \cup {<<"renew", e>> : e \in Events}
  \cup (IF Len(st.frames) < MaxFrames THEN {<<n, e, 1>> : n \in IF Basic THEN {"raise", "raisem"} ELSE {"raise"}, e \in Events} ELSE {})
  \cup (IF Basic \/ st.frames = <<>> THEN {} ELSE
          {<<"call", f, 1, Top.n>> : f \in 1..st.funs} \cup {<<"ret", f>> : f \in 1..st.funs} \cup {<<"end", Top.e, Top.n>>})

Start == [att |-> <<>>, fn |-> <<>>, own |-> <<>>, gone |-> <<>>, funs |-> 0, frames |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
\* every call goes to a handler that is attached to the event being raised
CallsAttached == [][op'[1] = "call" => \E h \in H : st.att[h] = Top.e /\ st.fn[h] = op'[2]]_vars
\* calls of a raise never exceed the handlers attached when it began, and a handler is not called twice by it
NoDouble == \A i \in 1..Len(st.frames) : st.frames[i].run \notin st.frames[i].todo
\* a raise ends only when every handler attached since its beginning was called
CompleteRaise == [][op'[1] = "end" => \A h \in Top.todo : st.att[h] # Top.e]_vars
DetachOnce == [][op'[1] = "remove" /\ ret' = <<"b", 1>> => st.att[op'[3]] = op'[2] /\ st'.att[op'[3]] = "-"]_vars
NeverReattached == [][\A h \in H : st.att[h] = "-" => st'.att[h] = "-"]_vars

(* ------------------------------ traces ----------------------------------- *)
AliveFuns(s) == {s.fn[h] : h \in {x \in 1..Len(s.att) : s.att[x] # "-" \/ s.own[x] = 1}}
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ e.bad = 0
            /\ (st'.frames = <<>> => e.live = Cardinality(AliveFuns(st')))
=============================================================================
