-------------------------------- MODULE Share -------------------------------
(* Shared ownership between threads, as it can be observed (property C02). Each    *)
(* thread has slots of its own; a slot owns an object or nothing (0). Threads      *)
(* begin and end operations on their slots; an object is released ("destroy") by a *)
(* thread in the middle of an operation.                                           *)
(*   own[t][i]  what slot i of thread t owned before its current operation         *)
(*   doing[t]   the operation thread t is in, or <<>>                              *)
(*   dead       the released objects                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES st, ret, op
vars == <<st, ret, op>>

Takes == {"copy", "ctor", "cast", "sub", "aside", "move", "mctor"}
Moves == {"move", "mctor"}
Effect(f, o) ==
    CASE o[1] \in Moves -> IF o[2] = o[3] THEN f ELSE [f EXCEPT ![o[2]] = f[o[3]], ![o[3]] = 0]
      [] o[1] \in {"copy", "ctor", "cast", "sub", "aside"} -> [f EXCEPT ![o[2]] = f[o[3]]]
      [] o[1] \in {"drop", "end"} -> [f EXCEPT ![o[2]] = 0]
      [] OTHER -> f
Before(s, t) == {s.own[t][i] : i \in DOMAIN s.own[t]} \ {0}
After(s, t) == LET f == IF s.doing[t] = <<>> THEN s.own[t] ELSE Effect(s.own[t], s.doing[t]) IN {f[i] : i \in DOMAIN f} \ {0}
Threads(s) == DOMAIN s.own
\* thread t certainly holds k: it owns it before and after what it is doing
Holds(s, t, k) == k \in Before(s, t) /\ k \in After(s, t)
Loses(s, t, k) == k \in Before(s, t) /\ k \notin After(s, t)

Begin(s, t, o) == [s EXCEPT !.doing[t] = o]
MayBegin(s, t) == s.doing[t] = <<>>
\* the last owner is on its way out, and it is this thread that drops it
MayDestroy(s, t, k) == /\ k \notin s.dead
                       /\ Loses(s, t, k)
                       /\ \A u \in Threads(s) : ~ Holds(s, u, k)
Destroy(s, k) == [s EXCEPT !.dead = @ \cup {k}]
End(s, t) == [s EXCEPT !.own[t] = Effect(s.own[t], s.doing[t]), !.doing[t] = <<>>]
\* an object that nobody owns any more has been released
MayEnd(s, t) == /\ s.doing[t] # <<>>
                /\ \A k \in Before(s, t) : (Loses(s, t, k) /\ \A u \in Threads(s) \ {t} : k \notin Before(s, u)) => k \in s.dead
                /\ \A k \in After(s, t) : k \notin s.dead
Result(s, t) == IF s.doing[t][1] = "read" THEN s.own[t][s.doing[t][2]] ELSE 0

\* the events: again (a new run with given owners), begin, destroy, end, finish
Do(e) ==
    CASE e[1] = "again" -> st' = [own |-> e[2], doing |-> [t \in DOMAIN e[2] |-> <<>>], dead |-> {}] /\ ret' = 0
      [] e[1] = "begin" -> MayBegin(st, e[2]) /\ st' = Begin(st, e[2], e[3]) /\ ret' = 0
      [] e[1] = "destroy" -> MayDestroy(st, e[2], e[3]) /\ st' = Destroy(st, e[3]) /\ ret' = 0
      [] e[1] = "end" -> MayEnd(st, e[2]) /\ st' = End(st, e[2]) /\ ret' = Result(st, e[2])
      [] e[1] = "finish" -> /\ \A t \in Threads(st) : st.doing[t] = <<>> /\ Before(st, t) = {}
                            /\ st' = st /\ ret' = Cardinality(st.dead)
Start == [own |-> <<>>, doing |-> <<>>, dead |-> {}]
Init == st = Start /\ ret = 0 /\ op = <<"init">>
Reset(e) == st' = Start /\ ret' = 0
\* at the end nothing is left allocated
Match(e) == e.r = ret' /\ (e.o[1] = "finish" => e.left = 0)
=============================================================================
