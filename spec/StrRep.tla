------------------------------- MODULE StrRep -------------------------------
(* How strings are represented: a view (start, length) of a buffer which is      *)
(* shared and counted, or borrowed from the program, or the common empty one.    *)
(* Each operation follows the library step by step; TLC checks that every        *)
(* operation is the one of Str on the texts (refinement), that counters are      *)
(* exact, that no string looks at a released buffer, and that the buffer exposed *)
(* by "buffer" ends where the text ends.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Chars, MaxLen, Bug,
          Few    \* few texts to begin with: only those that count up from 1
VARIABLES s,     \* x -> the fields of string x
          heap,  \* counted buffers: [txt, refs]; refs = 0: released
          ret, op
vars == <<s, heap, ret, op>>
N == Cardinality(Slots) + 2
Zero == [k |-> "zero", id |-> 0, txt |-> <<>>]
Static(t) == [k |-> "static", id |-> 0, txt |-> t]
Empty == [buf |-> Zero, start |-> 0, len |-> 0, real |-> 0]
Content(h, r) == SubSeq(IF r.buf.k = "heap" THEN h[r.buf.id].txt ELSE r.buf.txt, r.start + 1, r.start + r.len)
abs == [x \in Slots |-> Content(heap, s[x])]
A == INSTANCE Str WITH st <- abs

\* steps on the heap; a working state is <<heap, result>>
Inc(h, r) == IF r.buf.k = "heap" THEN [h EXCEPT ![r.buf.id].refs = @ + 1] ELSE h
Dec(h, r) == IF r.buf.k = "heap" THEN [h EXCEPT ![r.buf.id].refs = @ - 1] ELSE h
Unused(h) == CHOOSE i \in 1..N : h[i].refs = 0 /\ \A j \in 1..(i - 1) : h[j].refs > 0
Alloc(h, t) == LET i == Unused(h) IN
    <<[h EXCEPT ![i] = [txt |-> t, refs |-> 1]], [buf |-> [k |-> "heap", id |-> i, txt |-> <<>>], start |-> 0, len |-> Len(t), real |-> Len(t)]>>
Share(h, r) == <<Inc(h, r), r>>
SubUnsafe(h, r, i, n) == IF n <= 0 THEN <<h, Empty>> ELSE Share(h, [r EXCEPT !.start = @ + i, !.len = n, !.real = IF Bug = "real" THEN n ELSE @])
Borrow(t) == [buf |-> Static(t), start |-> 0, len |-> Len(t), real |-> Len(t)]
Replace(h, r, src, i, n) ==
    IF src.len = 0 /\ n = 0 THEN Share(h, r)
    ELSE IF i = 0 /\ n = r.len THEN Share(h, src)
    ELSE Alloc(h, SubSeq(Content(h, r), 1, i) \o Content(h, src) \o SubSeq(Content(h, r), i + n + 1, r.len))
ReplaceLit(h, r, t, i, n) ==
    IF t = <<>> /\ n = 0 THEN Share(h, r)
    ELSE IF i = 0 /\ n = r.len THEN Alloc(h, t)
    ELSE Replace(h, r, Borrow(t), i, n)
\* the result is moved to d; what d held goes
Store(d, w) == /\ heap' = Dec(w[1], s[d])
               /\ s' = [s EXCEPT ![d] = w[2]]
               /\ ret' = <<"ok", 0>>
Err == UNCHANGED <<s, heap>> /\ ret' = <<"err", 0>>
Val(v) == UNCHANGED <<s, heap>> /\ ret' = <<"v", v>>
L(x) == s[x].len
Move(d, a) == IF d = a THEN UNCHANGED <<s, heap>> /\ ret' = <<"ok", 0>>
              ELSE heap' = Dec(heap, s[d]) /\ s' = [s EXCEPT ![d] = s[a], ![a] = Empty] /\ ret' = <<"ok", 0>>
\* gives the view a buffer of its own unless it reaches the end of the one it has
Buffer(x) == LET r == s[x] IN
    IF r.start + r.len # r.real
    THEN LET w == Alloc(heap, Content(heap, r)) IN heap' = (IF Bug = "leak" THEN w[1] ELSE Dec(w[1], r)) /\ s' = [s EXCEPT ![x] = w[2]] /\ ret' = <<"txt", Content(heap, r)>>
    ELSE UNCHANGED <<s, heap>> /\ ret' = <<"txt", Content(heap, r)>>

Do(o) ==
    CASE o[1] = "lit" -> Store(o[2], Alloc(heap, o[3]))
      [] o[1] = "takeover" -> Store(o[2], Alloc(heap, o[3]))
      [] o[1] = "copyfrom" -> Store(o[2], IF o[3] = <<>> THEN <<heap, Empty>> ELSE Alloc(heap, o[3]))
      [] o[1] = "unmanaged" -> Store(o[2], <<heap, Borrow(o[3])>>)
      [] o[1] \in {"assign", "copy"} -> Store(o[2], Share(heap, s[o[3]]))
      [] o[1] = "cast" -> Store(o[2], IF L(o[3]) = 0 THEN <<heap, Empty>> ELSE Share(heap, s[o[3]]))
      [] o[1] \in {"move", "movector"} -> Move(o[2], o[3])
      [] o[1] = "left" -> IF o[4] < 0 \/ o[4] > L(o[3]) THEN Err ELSE Store(o[2], SubUnsafe(heap, s[o[3]], 0, o[4]))
      [] o[1] = "right" -> IF o[4] < 0 \/ o[4] > L(o[3]) THEN Err ELSE Store(o[2], SubUnsafe(heap, s[o[3]], L(o[3]) - o[4], o[4]))
      [] o[1] = "sub" -> IF o[4] < 0 \/ o[4] > L(o[3]) \/ o[5] < 0 \/ o[5] > L(o[3]) - o[4] THEN Err ELSE Store(o[2], SubUnsafe(heap, s[o[3]], o[4], o[5]))
      [] o[1] = "remove" -> IF o[4] < 0 \/ o[4] >= L(o[3]) \/ o[5] < 0 \/ o[5] > L(o[3]) - o[4] THEN Err ELSE Store(o[2], Replace(heap, s[o[3]], Empty, o[4], o[5]))
      [] o[1] = "insert" -> IF o[4] < 0 \/ o[4] > L(o[3]) THEN Err ELSE Store(o[2], Replace(heap, s[o[3]], s[o[5]], o[4], 0))
      [] o[1] = "concat" -> Store(o[2], Replace(heap, s[o[3]], s[o[4]], L(o[3]), 0))
      [] o[1] = "append" -> Store(o[2], Replace(heap, s[o[2]], s[o[3]], L(o[2]), 0))
      [] o[1] = "appendlit" -> Store(o[2], ReplaceLit(heap, s[o[2]], o[3], L(o[2]), 0))
      [] o[1] = "concatlit" -> Store(o[2], ReplaceLit(heap, s[o[3]], o[4], L(o[3]), 0))
      [] o[1] = "litconcat" -> Store(o[2], IF L(o[4]) = 0 THEN Alloc(heap, o[3]) ELSE Replace(heap, Borrow(o[3]), s[o[4]], Len(o[3]), 0))
      [] o[1] = "index" -> IF o[3] < 0 \/ o[3] >= L(o[2]) THEN Err ELSE Val(Content(heap, s[o[2]])[o[3] + 1])
      [] o[1] = "indexof" -> Val(A!First(Content(heap, s[o[2]]), o[3]))
      [] o[1] = "cmp" -> Val(A!Cmp(Content(heap, s[o[2]]), Content(heap, s[o[3]])))
      [] o[1] = "cmplit" -> Val(A!Cmp(Content(heap, s[o[2]]), o[3]))
      [] o[1] = "buffer" -> Buffer(o[2])
Init == s = [x \in Slots |-> Empty] /\ heap = [i \in 1..N |-> [txt |-> <<>>, refs |-> 0]] /\ ret = <<"ok", 0>> /\ op = <<"init">>
Up(t) == \A i \in DOMAIN t : t[i] = i
Pick(o) == Few =>
    /\ o[1] \in {"lit", "unmanaged", "appendlit"} => Up(o[3]) /\ Len(o[3]) \in {0, 2, MaxLen}
    /\ o[1] = "concatlit" => Up(o[4]) /\ Len(o[4]) = 1
    /\ o[1] = "litconcat" => Up(o[3]) /\ Len(o[3]) = 1
    /\ o[1] \notin {"copyfrom", "takeover", "movector", "copy"}
    /\ o[1] \notin {"assign", "move", "buffer"} => o[2] = "a"
    /\ o[1] \in {"left", "right", "cast", "append"} => o[3] = "a"
    /\ o[1] \in {"left", "right"} => o[4] \in 1..L(o[3])
    /\ o[1] \in {"sub", "remove"} => o[4] \in 0..L(o[3]) /\ o[5] \in 1..(L(o[3]) - o[4]) /\ o[3] = "a"
    /\ o[1] = "insert" => o[4] \in 0..L(o[3])
\* questions do not lead to new states and are asked of Str only
Next == \E o \in A!Ops : o[1] \notin {"cmp", "cmplit", "index", "indexof"} /\ Pick(o) /\ Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
\* the contents of released buffers do not matter
View == <<s, [i \in 1..N |-> IF heap[i].refs = 0 THEN <<>> ELSE heap[i]]>>
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))

Refines == [][A!Do(op')]_vars
Exact == \A i \in 1..N : heap[i].refs = Cardinality({x \in Slots : s[x].buf.k = "heap" /\ s[x].buf.id = i})
Inside == \A x \in Slots : LET r == s[x] IN
    /\ r.start >= 0 /\ r.len >= 0 /\ r.start + r.len <= r.real
    /\ r.real = Len(IF r.buf.k = "heap" THEN heap[r.buf.id].txt ELSE r.buf.txt)
    /\ r.buf.k = "heap" => heap[r.buf.id].refs > 0
\* the exposed buffer: the whole rest of the buffer (which ends with a zero character) is the text
Terminated == [][op'[1] = "buffer" => LET r == s'[op'[2]] IN r.start + r.len = Len(IF r.buf.k = "heap" THEN heap'[r.buf.id].txt ELSE r.buf.txt)]_vars
=============================================================================
