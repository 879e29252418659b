-------------------------------- MODULE Own --------------------------------
(* Shared ownership (property C01). Pointer variables ("slots") and objects. *)
(* Every object has one pointer-valued field `next`. Objects are numbered in *)
(* order of creation. Slots are typed: "b" base, "d" derived, "o" the other  *)
(* base of derived, "c" COM pointers; objects are of kind 1 (base only),     *)
(* 2 (derived) or 3 (COM object).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SB, SD, SO, SC,   \* names of the pointer variables of each type
          MaxObj,           \* number of objects in the bounded model
          ByeOn             \* whether objects with a farewell occur in the bounded model

VARIABLES st, ret, op
vars == <<st, ret, op>>
Names == SB \cup SD \cup SO \cup SC
Slots == [n \in Names |-> CASE n \in SB -> "b" [] n \in SD -> "d" [] n \in SO -> "o" [] n \in SC -> "c"]
N(s) == Len(s.alive)

Holders(s, x) == {n \in Names : s.slot[n] = x} 
Refs(s, x) == Cardinality(Holders(s, x)) + Cardinality({y \in 1..N(s) : s.alive[y] = 1 /\ s.next[y] = x})

(* An owner of x has gone: destroy x if it was the last, which in turn takes *)
(* away the owner x was of its successor.                                    *)
(* The destructor of an object may itself clear a pointer variable (its      *)
(* farewell), even the one whose assignment released the object.             *)
RECURSIVE Release(_, _)
Release(s, x) ==
    IF x = 0 THEN s
    ELSE IF s.alive[x] = 0 \/ Refs(s, x) > 0 \/ s.raw[x] = 1 THEN s
    ELSE LET s1 == [s EXCEPT !.alive[x] = 0, !.next[x] = 0, !.bye[x] = "-"]
             b == s.bye[x]
             s2 == IF b = "-" THEN s1 ELSE Release([s1 EXCEPT !.slot[b] = 0], s1.slot[b])
         IN Release(s2, s.next[x])

SetSlot(s, n, x) == Release([s EXCEPT !.slot[n] = x], s.slot[n])
SetNext(s, y, x) == Release([s EXCEPT !.next[y] = x], s.next[y])

Done(s) == st' = s /\ ret' = <<"ok", 0>>
Skip == st' = st /\ ret' = <<"skip", 0>>
Ask(b) == st' = st /\ ret' = <<"b", IF b THEN 1 ELSE 0>>

Fits(n, k) == CASE Slots[n] = "b" -> k \in {1, 2} [] Slots[n] \in {"d", "o"} -> k = 2 [] Slots[n] = "c" -> k = 3

(* ------------------------------- operations ------------------------------ *)
NewObj(n, k) ==
    LET s1 == [st EXCEPT !.alive = Append(@, 1), !.next = Append(@, 0), !.raw = Append(@, 0), !.kind = Append(@, k), !.bye = Append(@, "-")]
    IN Done(SetSlot(s1, n, N(st) + 1))
Copy(d, s) == Done(SetSlot(st, d, st.slot[s]))
\* moving from another variable empties it; moving onto itself changes nothing
Move(d, s) == IF d = s THEN Done(st)
              ELSE LET x == st.slot[s] IN Done(Release([st EXCEPT !.slot[d] = x, !.slot[s] = 0], st.slot[d]))
\* a dynamic cast shares ownership if the object is of the wanted kind, else the result is empty
Cast(d, s) == LET x == st.slot[s]
                  y == IF x # 0 /\ Fits(d, st.kind[x]) THEN x ELSE 0
              IN Done(SetSlot(st, d, y))
Null(d) == Done(SetSlot(st, d, 0))
Load(d, s) == IF st.slot[s] = 0 THEN Skip ELSE Done(SetSlot(st, d, st.next[st.slot[s]]))
LoadMove(d, s) ==   \* d = std::move(s->next)
    IF st.slot[s] = 0 THEN Skip
    ELSE LET y == st.slot[s]
             x == st.next[y]
         IN Done(Release([st EXCEPT !.slot[d] = x, !.next[y] = 0], st.slot[d]))
Store(d, s) ==      \* d->next = s
    IF st.slot[d] = 0 THEN Skip ELSE Done(SetNext(st, st.slot[d], st.slot[s]))
StoreMove(d, s) ==  \* d->next = std::move(s)
    IF st.slot[d] = 0 THEN Skip
    ELSE LET y == st.slot[d] IN
         Done(Release([st EXCEPT !.next[y] = st.slot[s], !.slot[s] = 0], st.next[y]))
\* s->next = s->next->next, a list node removed through the field that owns it
Unlink(s) ==
    IF st.slot[s] = 0 THEN Skip
    ELSE IF st.next[st.slot[s]] = 0 THEN Skip
    ELSE Done(SetNext(st, st.slot[s], st.next[st.next[st.slot[s]]]))
\* the field of object x is cleared, whoever owns x: at worst x itself
Cut(x) == IF x > N(st) THEN Skip ELSE IF st.alive[x] = 0 THEN Skip ELSE Done(SetNext(st, x, 0))
Bye(n, m) == IF st.slot[n] = 0 THEN Skip ELSE Done([st EXCEPT !.bye[st.slot[n]] = m])
Detach(n) ==
    LET x == st.slot[n]
        s1 == [st EXCEPT !.slot[n] = 0]
    IN /\ st' = IF x # 0 /\ Refs(s1, x) = 0 THEN [s1 EXCEPT !.raw[x] = 1] ELSE s1
       /\ ret' = <<"i", x>>
Adopt(n, x) ==
    IF x > N(st) THEN Skip   \* only objects whose last owner detached them can be adopted
    ELSE IF st.raw[x] = 0 \/ ~Fits(n, st.kind[x]) THEN Skip
    ELSE Done(SetSlot([st EXCEPT !.raw[x] = 0], n, x))
Equal(a, b) == Ask(st.slot[a] = st.slot[b])
NonEmpty(a) == Ask(st.slot[a] # 0)

Do(o) ==
    CASE o[1] \in {"new", "newctor"} -> NewObj(o[2], o[3])
      [] o[1] \in {"copy", "copyctor", "up"} -> Copy(o[2], o[3])
      [] o[1] \in {"move", "movector", "upmove"} -> Move(o[2], o[3])
      [] o[1] = "cast" -> Cast(o[2], o[3])
      [] o[1] \in {"null", "drop"} -> Null(o[2])
      [] o[1] = "load" -> Load(o[2], o[3])
      [] o[1] = "loadmove" -> LoadMove(o[2], o[3])
      [] o[1] = "store" -> Store(o[2], o[3])
      [] o[1] = "storemove" -> StoreMove(o[2], o[3])
      [] o[1] = "unlink" -> Unlink(o[2])
      [] o[1] = "cut" -> Cut(o[2])
      [] o[1] = "bye" -> Bye(o[2], o[3])
      [] o[1] = "detach" -> Detach(o[2])
      [] o[1] = "adopt" -> Adopt(o[2], o[3])
      [] o[1] = "eq" -> Equal(o[2], o[3])
      [] o[1] = "bool" -> NonEmpty(o[2])

(* ------------------------------ bounded model ---------------------------- *)
T(n) == Slots[n]
Same == {p \in Names \X Names : T(p[1]) = T(p[2])}
Base == {n \in Names : T(n) = "b"}
Com == {n \in Names : T(n) = "c"}
Kinds(n) == {k \in 1..3 : Fits(n, k)}
Ops ==
      (IF N(st) < MaxObj THEN {<<m, n, k>> : m \in {"new", "newctor"}, n \in Names, k \in 1..3} ELSE {})
 \cup {<<m, p[1], p[2]>> : m \in {"copy", "move", "eq"}, p \in Same}
 \cup {<<m, p[1], p[2]>> : m \in {"copyctor", "movector"}, p \in {q \in Same : q[1] # q[2]}}
 \cup {<<m, d, s>> : m \in {"up", "upmove"}, d \in Base, s \in {n \in Names : T(n) = "d"}}
 \cup {<<"up", d, s>> : d \in {n \in Names : T(n) = "o"}, s \in {n \in Names : T(n) = "d"}}
 \cup {<<"cast", d, s>> : d \in Names \ Com, s \in Names \ Com}
 \cup {<<m, n>> : m \in {"null", "drop", "bool"}, n \in Names}
 \cup {<<"detach", n>> : n \in Names \ Com}
 \cup {<<m, d, s>> : m \in {"load", "loadmove", "store", "storemove"}, d \in Base, s \in Base}
 \cup {<<m, d, s>> : m \in {"load", "loadmove", "store", "storemove"}, d \in Com, s \in Com}
 \cup {<<"unlink", n>> : n \in Base \cup Com}
 \cup {<<"adopt", n, x>> : n \in Names \ Com, x \in {y \in 1..N(st) : st.raw[y] = 1}}

 \cup {<<"cut", x>> : x \in {y \in 1..N(st) : st.alive[y] = 1}}
 \cup (IF ByeOn THEN {<<"bye", n, m>> : n \in Names, m \in Names} ELSE {})
\* with farewells, the operations in which the kind of an object or an answer matters are left out
Enabled(o) == /\ o[1] \in {"new", "newctor"} => Fits(o[2], o[3]) /\ (ByeOn => o[3] # 2)
              /\ o[1] \in {"eq", "bool", "cast", "newctor"} => ~ByeOn

Start == [slot |-> [n \in Names |-> 0], alive |-> <<>>, next |-> <<>>, raw |-> <<>>, kind |-> <<>>, bye |-> <<>>]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Enabled(o) /\ Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
\* a non-empty pointer refers to an undestroyed object
NoDangling == /\ \A n \in Names : st.slot[n] # 0 => st.alive[st.slot[n]] = 1
              /\ \A x \in 1..N(st) : st.alive[x] = 1 /\ st.next[x] # 0 => st.alive[st.next[x]] = 1
\* an object without owner is destroyed, unless its last owner detached it
NoLeak == \A x \in 1..N(st) : st.alive[x] = 1 /\ st.raw[x] = 0 => Refs(st, x) > 0
RawUnowned == \A x \in 1..N(st) : st.raw[x] = 1 => st.alive[x] = 1 /\ Refs(st, x) = 0
\* destroyed at most once, and only when the last owner went away in this very step
DestroyedOnce == [][\A x \in 1..N(st) :
      /\ st.alive[x] = 0 => st'.alive[x] = 0
      /\ st.alive[x] = 1 /\ st'.alive[x] = 0 => Refs(st', x) = 0 /\ IF st.raw[x] = 0 THEN Refs(st, x) > 0 ELSE op'[1] = "adopt" /\ op'[3] = x]_vars
QueriesChangeNothing == [][op'[1] \in {"eq", "bool"} => st' = st]_vars
MovedFromIsEmpty == [][op'[1] \in {"move", "movector", "upmove"} /\ op'[2] # op'[3] => st'.slot[op'[3]] = 0]_vars

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == /\ ret' = e.r
            /\ st'.slot = e.s.slot
            /\ st'.alive = e.s.alive
            /\ st'.next = e.s.next
            /\ e.bad = 0
=============================================================================
