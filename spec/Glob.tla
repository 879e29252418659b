-------------------------------- MODULE Glob --------------------------------
(* Global storages (property C19). A storage is initialised or not; gen[s]     *)
(* counts its initialisations; dep[s] lists storages its initialiser accesses. *)
(* drop[s] lists storages its finaliser finalises.                             *)
(* log holds what happened in the last step: <<"i", s>> initialised,           *)
(* <<"f", s>> finalised.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Stores, MaxGen, Deps, Drops
VARIABLES st, ret, op
vars == <<st, ret, op>>

B(b) == IF b THEN 1 ELSE 0
Clean(s) == [s EXCEPT !.log = <<>>]
RECURSIVE Acc(_, _), AccAll(_, _)
Acc(s, x) == IF s.init[x] = 1 THEN s
             ELSE AccAll([s EXCEPT !.init[x] = 1, !.gen[x] = @ + 1, !.log = Append(@, <<"i", x>>)], s.dep[x])
AccAll(s, xs) == IF xs = <<>> THEN s ELSE AccAll(Acc(s, Head(xs)), Tail(xs))

Access(x) == LET s == Acc(Clean(st), x) IN st' = s /\ ret' = <<"v", s.gen[x]>>
\* touching the object without the accessor function: it must exist already, the program makes sure it does
Ensure(x) == LET s == Acc(Clean(st), x) IN st' = s /\ ret' = <<"ok", 0>>
IsInit(x) == st' = Clean(st) /\ ret' = <<"b", st.init[x]>>
Live == {x \in Stores : st.init[x] = 1}
\* what finalising a set of storages finalises, through what their finalisers finalise
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {{y \in Live : \E i \in DOMAIN st.drop[x] : st.drop[x][i] = y} : x \in S} IN IF T = S THEN S ELSE Reach(T)
\* the order in which they are finalised is left open (checked against the recorded log)
Orders(S) == {p \in [1..Cardinality(S) -> S] : {p[i] : i \in DOMAIN p} = S}
Off(S, p) == [st EXCEPT !.init = [x \in Stores |-> IF x \in S THEN 0 ELSE @[x]], !.log = [i \in DOMAIN p |-> <<"f", p[i]>>]]
Finalize(x) == \E p \in Orders(Reach({x} \cap Live)) : st' = Off(Reach({x} \cap Live), p) /\ ret' = <<"ok", 0>>
SetDep(x, ys) == st' = [Clean(st) EXCEPT !.dep[x] = ys] /\ ret' = <<"ok", 0>>
SetDrop(x, ys) == st' = [Clean(st) EXCEPT !.drop[x] = ys] /\ ret' = <<"ok", 0>>
FinalizeAll == \E p \in Orders(Live) : st' = Off(Live, p) /\ ret' = <<"ok", 0>>
\* what would happen if the program ended now
Exit == \E p \in Orders(Live) : st' = [Off({}, p) EXCEPT !.init = st.init] /\ ret' = <<"ok", 0>>

Do(o) ==
    CASE o[1] = "access" -> Access(o[2])
      [] o[1] = "ensure" -> Ensure(o[2])
      [] o[1] = "isinit" -> IsInit(o[2])
      [] o[1] = "finalize" -> Finalize(o[2])
      [] o[1] = "dep" -> SetDep(o[2], o[3])
      [] o[1] = "drop" -> SetDrop(o[2], o[3])
      [] o[1] = "finalizeall" -> FinalizeAll
      [] o[1] = "exit" -> Exit

Ops == {<<n, x>> : n \in {"access", "ensure"}, x \in {y \in Stores : \A z \in Stores : st.gen[z] < MaxGen}}
  \cup {<<n, x>> : n \in {"isinit", "finalize"}, x \in Stores} \cup {<<"finalizeall">>, <<"exit">>}
  \cup {<<"dep", x, ys>> : x \in Stores, ys \in Deps} \cup {<<"drop", x, ys>> : x \in Stores, ys \in Drops}
OneDep == {<<>>} \cup {<<x>> : x \in Stores}
NoDep == {<<>>}
Start == [init |-> [x \in Stores |-> 0], gen |-> [x \in Stores |-> 0], dep |-> [x \in Stores |-> <<>>], drop |-> [x \in Stores |-> <<>>], log |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == [st EXCEPT !.log = <<>>]
Emit == PrintT("EDGE " \o ToJson(<<[st EXCEPT !.log = <<>>], op', [st' EXCEPT !.log = <<>>]>>))

(* ------------------------------ properties ------------------------------- *)
Times(k, x) == Cardinality({i \in 1..Len(st.log) : st.log[i] = <<k, x>>})
OncePerStep == \A x \in Stores : Times("i", x) <= 1 /\ Times("f", x) <= 1
\* initialised exactly when the state turns on, finalised exactly when it turns off
LogIsChange == [][op'[1] # "exit" => \A x \in Stores :
    /\ (\E i \in 1..Len(st'.log) : st'.log[i] = <<"i", x>>) = (st.init[x] = 0 /\ st'.init[x] = 1)
    /\ (\E i \in 1..Len(st'.log) : st'.log[i] = <<"f", x>>) = (st.init[x] = 1 /\ st'.init[x] = 0)]_vars
AccessInitialises == [][op'[1] = "access" => st'.init[op'[2]] = 1]_vars
ExitFinalisesAll == [][op'[1] = "exit" => \A x \in Stores : (st.init[x] = 1) = (\E i \in 1..Len(st'.log) : st'.log[i] = <<"f", x>>)]_vars
AllGone == [][op'[1] = "finalizeall" => \A x \in Stores : st'.init[x] = 0]_vars

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r /\ st'.log = e.log
            /\ \A x \in Stores : e.init[x] = st'.init[x] /\ (st'.init[x] = 1 => e.gen[x] = st'.gen[x])
=============================================================================
