-------------------------------- MODULE Gen ---------------------------------
(* Behaviours of the specification for replay into the real crate: TLC       *)
(* enumerates states and calls, and every transition (or complete path of an *)
(* iterator) is written to the file OUT as one JSON line                     *)
(*   {D, kind, deny, w, pre, e, out, post}     a call                        *)
(*   {D, path: [{e, out, rest}, ..]}           an iteration                  *)
(* The elements of D are either actual discriminants, replayed on the enums  *)
(* that have exactly these, or (abs = TRUE) ranks, replayed on all enums     *)
(* with that many variants.                                                  *)
EXTENDS Calls, CSV, Json, IOUtils

CONSTANTS Family    \* which calls: "core", "iter", "int", ...

VARIABLE hist       \* steps of the iteration so far
gvars == <<decl, reg, it, ord, hsh, out, hist>>

Conf == ndJsonDeserialize(IOEnv.GEN)    \* lines: [D, abs, kind, deny, w, nreg, extra]

Line(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Seqs(r) == [x \in 1 .. Len(r) |-> Asc(r[x])]
Emit(e) == Line([D |-> Asc(D), abs |-> decl.abs, kind |-> decl.kind, deny |-> decl.deny,
                 w |-> decl.w, pre |-> Seqs(reg), e |-> e, out |-> out',
                 post |-> Seqs(reg')])
NoInfo == [k |-> "ok", r |-> <<>>, set |-> {}]
Step(e) == Call(e, NoInfo) /\ Emit(e) /\ UNCHANGED hist

Regs == DOMAIN reg
UpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
-----------------------------------------------------------------------------
(* The whole run-time interface that does not depend on numbers.             *)
Core ==
    \/ Step([op |-> "vcount"])
    \/ \E d \in Regs :
        \/ \E o \in {"empty", "all", "clear"} : Step([op |-> o, d |-> d])
        \/ \E o \in {"len", "is_empty"} : Step([op |-> o, a |-> d])
        \/ \E v \in D :
            \/ \E o \in {"single", "insert", "remove", "notv"} :
                    Step([op |-> o, d |-> d, v |-> v])
            \/ Step([op |-> "contains", a |-> d, v |-> v])
            \/ Step([op |-> "eqvs", v |-> v, a |-> d])
            \/ \E u \in D, f \in BinOps :
                    Step([op |-> "binvv", f |-> f, d |-> d, v |-> v, u |-> u])
            \/ \E b \in Regs, f \in BinOps :
                \/ Step([op |-> "binvs", f |-> f, d |-> d, v |-> v, b |-> b])
                \/ Step([op |-> "binsv", f |-> f, d |-> d, a |-> b, v |-> v])
        \/ \E vs \in UpTo(D, 2), o \in {"ext_elems", "from_elems"} :
                Step([op |-> o, d |-> d, vs |-> vs])
        \/ \E rs \in UpTo(Regs, 2), o \in {"ext_sets", "from_sets"} :
                Step([op |-> o, d |-> d, rs |-> rs])
        \/ \E a \in Regs :
            \/ \E o \in {"copy", "compl", "insert_all", "remove_all"} :
                    Step([op |-> o, d |-> d, a |-> a])
            \/ \E o \in {"subset", "superset", "disjoint", "eq"} :
                    Step([op |-> o, a |-> d, b |-> a])
            \/ \E b \in Regs, f \in BinOps :
                    Step([op |-> "bin", f |-> f, d |-> d, a |-> a, b |-> b])
    \/ \E v, u \in D : Step([op |-> "eqvv", v |-> v, u |-> u])

-----------------------------------------------------------------------------
(* Every way to consume an iterator: from every set, every sequence of       *)
(* next, next_back, nth and nth_back to exhaustion.                          *)
IterStep(e) == /\ Call(e, NoInfo)
               /\ hist' = Append(hist, [e |-> e, out |-> out', rest |-> Asc(it'[1])])
Iteration ==
    IF it = <<>> THEN
        /\ Call([op |-> "iter", i |-> 1, a |-> 1], NoInfo) /\ UNCHANGED hist
    ELSE IF it[1] = {} THEN
        /\ hist # <<>> => hist[Len(hist)].e.op # "end"
        /\ hist' = Append(hist, [e |-> [op |-> "end"], out |-> Ok(0), rest |-> <<>>])
        /\ Line([D |-> Asc(D), abs |-> decl.abs, start |-> Asc(reg[1]), path |-> hist])
        /\ UNCHANGED vars
    ELSE
        \/ IterStep([op |-> "next", i |-> 1])
        \/ IterStep([op |-> "next_back", i |-> 1])
        \/ \E n \in 1 .. Cardinality(it[1]) :
            \/ IterStep([op |-> "nth", i |-> 1, n |-> n])
            \/ IterStep([op |-> "nth_back", i |-> 1, n |-> n])

-----------------------------------------------------------------------------
(* Numbers: bits of interest are those of variants and the `extra` ones.     *)
Bits == D \cup Range(decl.extra)
NW == (IF Bits = {} THEN 0 ELSE Max(Bits) \div 64) + 1
Widths == {8, 16, 32, 64, 128}
Numbers ==
    \/ \E w \in Widths, m \in {"try", "panic", "trunc"} :
        \/ Step([op |-> "to_int", a |-> 1, w |-> w, mode |-> m])
        \/ reg[1] = {} /\ \E B \in SUBSET {b \in Bits : b < w} :
            Step([op |-> "from_int", d |-> 1, w |-> w, vs |-> Asc(B), mode |-> m])
    \/ reg[1] = {} /\ \E w \in Widths : \E B \in SUBSET {b \in D : b < w} :
        Step([op |-> "from_int", d |-> 1, w |-> w, vs |-> Asc(B), mode |-> "unchecked"])
Arrays ==
    \/ \E n \in 0 .. NW + 1, m \in {"try", "panic", "trunc"} :
        \/ Step([op |-> "to_array", a |-> 1, n |-> n, mode |-> m])
        \/ Step([op |-> "into_slice", a |-> 1, mode |-> m,
                 ws |-> [i \in 1 .. n |-> IF i % 2 = 1 THEN <<0, 5, 63>> ELSE <<1>>]])
    \/ /\ reg[1] = {}
       /\ \E n \in 0 .. NW + 1, m \in {"try", "panic", "trunc"} :
          \E B \in SUBSET {b \in Bits \cup {64 * (NW + 1) - 1} : b < 64 * n} :
            Step([op |-> "from_array", d |-> 1, mode |-> m,
                  ws |-> [i \in 1 .. n |-> Asc(Word(B, i - 1))]])
    \/ /\ reg[1] = {}
       /\ \E n \in 0 .. NW + 1 : \E B \in SUBSET {b \in D : b < 64 * n} :
            Step([op |-> "from_array", d |-> 1, mode |-> "unchecked",
                  ws |-> [i \in 1 .. n |-> Asc(Word(B, i - 1))]])
Reprs ==
    decl.w > 0 /\
    \/ Step([op |-> "memory", a |-> 1])
    \/ Step([op |-> "as_repr", a |-> 1])
    \/ Step([op |-> "layout"])
    \/ reg[1] = {} /\ \E B \in SUBSET {b \in Bits : b < decl.w},
                         m \in {"try", "panic", "trunc"} :
        Step([op |-> "from_repr", d |-> 1, vs |-> Asc(B), mode |-> m])
    \/ reg[1] = {} /\ \E B \in SUBSET {b \in D : b < decl.w} :
        Step([op |-> "from_repr", d |-> 1, vs |-> Asc(B), mode |-> "unchecked"])

-----------------------------------------------------------------------------
(* Documents.                                                                *)
Docs ==
    CASE decl.kind \in SerPrim ->
            {[t |-> "int", w |-> SerWidth(decl.kind), bits |-> Asc(B)] :
                B \in SUBSET {b \in Bits : b < SerWidth(decl.kind)}}
      [] decl.kind = "array" ->
            UNION {{[t |-> "words", ws |-> [i \in 1 .. n |-> Asc(Word(B, i - 1))]] :
                        B \in SUBSET {b \in Bits \cup {64 * (NW + 1) - 1} : b < 64 * n}} :
                   n \in 0 .. NW + 1}
      [] decl.kind = "list" -> {[t |-> "list", vs |-> s] : s \in UpTo(D, 3)}
      [] decl.kind = "map" ->
            {[t |-> "map", es |-> [n \in DOMAIN s |-> <<s[n], (n + x) % 3 # 0>>]] :
                s \in {q \in UpTo(D, 3) : NoRepeats(q)}, x \in 0 .. 2}
Documents ==
    \/ Step([op |-> "roundtrip", d |-> 2, a |-> 1])
    \/ reg[1] = {} /\ \E doc \in Docs : Step([op |-> "de", d |-> 1, doc |-> doc])

-----------------------------------------------------------------------------
(* Constant expressions over two constants and the variants; the third       *)
(* variable takes the value.                                                 *)
Operands == {<<"v", v>> : v \in D} \cup {<<"r", r>> : r \in {1, 2}}
Args(n) == UNION {[1 .. k -> Operands] : k \in 1 .. n}
Constants ==
    reg[3] = {} /\
    \/ Step([op |-> "const", d |-> 3, m |-> "literal", args |-> <<>>])
    \/ \E x \in Operands : Step([op |-> "const", d |-> 3, m |-> "complement", args |-> <<x>>])
    \/ \E m \in FoldMacros \cup {"literal"} : \E s \in Args(decl.extra[1]) :
            Step([op |-> "const", d |-> 3, m |-> m, args |-> s])
-----------------------------------------------------------------------------
GInit == /\ decl \in {[D |-> Range(c.D), abs |-> c.abs, kind |-> c.kind, deny |-> c.deny,
                       w |-> c.w, nreg |-> c.nreg, extra |-> c.extra] : c \in Range(Conf)}
         /\ reg \in [1 .. decl.nreg -> SUBSET D]
         /\ it = <<>> /\ ord = {} /\ hsh = <<>> /\ out = Ok(Unit) /\ hist = <<>>
GNext == CASE Family = "core" -> Core
           [] Family = "iter" -> Iteration
           [] Family = "int" -> Numbers
           [] Family = "array" -> Arrays
           [] Family = "repr" -> Reprs
           [] Family = "serde" -> Documents
           [] Family = "const" -> Constants
GSpec == GInit /\ [][GNext]_gvars
GView == <<decl, reg, it, hist>>
GInv == OnlyVariants
=============================================================================
