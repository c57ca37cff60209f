---------------------------- MODULE EnumSetSpec -----------------------------
(* The run-time machine of enumset.                                          *)
(*                                                                           *)
(* State: the declared discriminants, a bank of set variables, a bank of     *)
(* live iterators, and what has been learned about the order relation and    *)
(* the hash function.  Every public operation is an action; `out` is what    *)
(* the call returned.  An operation that can be called through several       *)
(* routes (a method, an operator, an assignment operator ...) is one action: *)
(* the conformance harness exercises every route.                            *)
EXTENDS Bits

VARIABLES
    decl,   \* the declaration: [D |-> discriminants, repr, ser, deny]
    reg,    \* set variables: id -> set of discriminants
    it,     \* live iterators: id -> elements not yielded yet
    ord,    \* learned order: pairs <<A, B>> of sets with A < B
    hsh,    \* learned hash function: set -> hash value
    out     \* outcome of the last call: [k |-> kind, r |-> result]

vars == <<decl, reg, it, ord, hsh, out>>

D == decl.D

Ok(r) == [k |-> "ok", r |-> r]
None == [k |-> "none", r |-> <<>>]
Panic == [k |-> "panic", r |-> <<>>]
Err == [k |-> "err", r |-> <<>>]
Fail(mode) == IF mode = "try" THEN None ELSE Panic

Unit == 0
Opt(S) == Asc(S)    \* an optional element: <<>> or <<x>>

NoLearn == UNCHANGED <<ord, hsh>>
Only(o) == /\ out' = o /\ UNCHANGED <<decl, reg, it>> /\ NoLearn
Write(d, S, o) == /\ reg' = [reg EXCEPT ![d] = S]
                  /\ out' = o
                  /\ UNCHANGED <<decl, it>> /\ NoLearn
WriteIt(i, S, o) == /\ it' = (i :> S) @@ it
                    /\ out' = o
                    /\ UNCHANGED <<decl, reg>> /\ NoLearn

-----------------------------------------------------------------------------
(* Construction.                                                             *)
Empty(d) == Write(d, {}, Ok(Unit))
All(d) == Write(d, D, Ok(Unit))
SingleV(d, v) == Write(d, {v}, Ok(Unit))
Copy(d, a) == Write(d, reg[a], Ok(Unit))

(* Set algebra. f names the operation.                                       *)
BinOps == {"or", "and", "sub", "xor"}
Bin(f, A, B) == CASE f = "or" -> A \cup B
                  [] f = "and" -> A \cap B
                  [] f = "sub" -> A \ B
                  [] f = "xor" -> SymDiff(A, B)
BinOp(f, d, a, b) == Write(d, Bin(f, reg[a], reg[b]), Ok(Unit))
Complement(d, a) == Write(d, D \ reg[a], Ok(Unit))

(* Operators with a bare variant on one side or both.                        *)
BinVV(f, d, v, u) == Write(d, Bin(f, {v}, {u}), Ok(Unit))
BinVS(f, d, v, b) == Write(d, Bin(f, {v}, reg[b]), Ok(Unit))
BinSV(f, d, a, v) == Write(d, Bin(f, reg[a], {v}), Ok(Unit))
NotV(d, v) == Write(d, D \ {v}, Ok(Unit))
EqVV(v, u) == Only(Ok(v = u))
EqVS(v, a) == Only(Ok(reg[a] = {v}))

(* Queries.                                                                  *)
ContainsV(a, v) == Only(Ok(v \in reg[a]))
LengthOf(a) == Only(Ok(Cardinality(reg[a])))
IsEmptyOf(a) == Only(Ok(reg[a] = {}))
IsSubset(a, b) == Only(Ok(reg[a] \subseteq reg[b]))
IsSuperset(a, b) == Only(Ok(reg[b] \subseteq reg[a]))
IsDisjoint(a, b) == Only(Ok(reg[a] \cap reg[b] = {}))
VariantCount == Only(Ok(Cardinality(D)))
BitWidthOf == Only(Ok(IF D = {} THEN 0 ELSE Max(D) + 1))

-----------------------------------------------------------------------------
(* Mutation.                                                                 *)
InsertV(d, v) == Write(d, reg[d] \cup {v}, Ok(v \notin reg[d]))
RemoveV(d, v) == Write(d, reg[d] \ {v}, Ok(v \in reg[d]))
InsertAll(d, a) == Write(d, reg[d] \cup reg[a], Ok(Unit))
RemoveAll(d, a) == Write(d, reg[d] \ reg[a], Ok(Unit))
Clear(d) == Write(d, {}, Ok(Unit))
ExtendElems(d, vs) == Write(d, reg[d] \cup Range(vs), Ok(Unit))
ExtendSets(d, rs) == Write(d, reg[d] \cup UNION {reg[r] : r \in Range(rs)},
                           Ok(Unit))
(* The source of elements panics after some: the set keeps what it had and   *)
(* gains at most what was given.                                             *)
ExtendCut(d, given, S) == /\ reg[d] \subseteq S /\ S \subseteq reg[d] \cup given
                          /\ Write(d, S, Panic)
FromElems(d, vs) == Write(d, Range(vs), Ok(Unit))          \* collect, sum
FromSets(d, rs) == Write(d, UNION {reg[r] : r \in Range(rs)}, Ok(Unit))

-----------------------------------------------------------------------------
(* Iteration.  An iterator is the set of elements still to come: the front   *)
(* takes the least, the back the greatest.                                   *)
NewIter(i, a) == WriteIt(i, reg[a], Ok(Unit))
IterClone(i, j) == WriteIt(i, it[j], Ok(Unit))

(* Skip k elements, then yield one, from one end of the remaining elements.  *)
Yield(i, k, front) ==
    LET R == it[i]
        s == IF front THEN Asc(R) ELSE Desc(R)
    IN IF k < Len(s)
       THEN WriteIt(i, R \ {s[n] : n \in 1 .. k + 1}, Ok(<<s[k + 1]>>))
       ELSE WriteIt(i, {}, Ok(<<>>))
Next1(i) == IF it[i] = {} THEN Only(Ok(<<>>))
            ELSE LET m == Min(it[i]) IN WriteIt(i, it[i] \ {m}, Ok(<<m>>))
NextBack1(i) == IF it[i] = {} THEN Only(Ok(<<>>))
                ELSE LET m == Max(it[i]) IN WriteIt(i, it[i] \ {m}, Ok(<<m>>))
Nth(i, k) == Yield(i, k, TRUE)
NthBack(i, k) == Yield(i, k, FALSE)

SizeHint(i) == LET n == Cardinality(it[i]) IN Only(Ok(<<n, n, n>>))
(* The rest of the iteration, by an adaptor that consumes (a clone of) it.   *)
Rest(i) == Only(Ok(Asc(it[i])))
RestBack(i) == Only(Ok(Desc(it[i])))
CountOf(i) == Only(Ok(Cardinality(it[i])))
LastOf(i) == Only(Ok(IF it[i] = {} THEN <<>> ELSE <<Max(it[i])>>))

-----------------------------------------------------------------------------
(* Conversions to and from numbers of w bits.                                *)
ToNum(S, w, mode) == IF mode = "trunc" \/ Fits(S, w)
                     THEN Ok(Asc(Trunc(S, w))) ELSE Fail(mode)
ToInt(a, w, mode) == Only(ToNum(reg[a], w, mode))

(* From a number with the bits B: mode "try", "panic", "trunc", "unchecked". *)
FromBits(d, B, mode) ==
    IF mode = "trunc" THEN Write(d, B \cap D, Ok(Unit))
    ELSE IF B \subseteq D THEN Write(d, B, Ok(Unit))
    ELSE mode # "unchecked" /\ Only(Fail(mode))
FromInt(d, w, B, mode) == Fits(B, w) /\ FromBits(d, B, mode)

(* Arrays and slices of n words. buf is what the slice held before.          *)
ToArr(S, n, mode) == IF mode = "trunc" \/ Fits(S, WordBits * n)
                     THEN Ok([i \in 1 .. n |-> Asc(Word(S, i - 1))])
                     ELSE Fail(mode)
ToArray(a, n, mode) == Only(ToArr(reg[a], n, mode))
IntoSlice(a, buf, mode) ==
    LET o == ToArr(reg[a], Len(buf), mode)
    IN Only(IF o.k = "ok" THEN o ELSE [o EXCEPT !.r = buf])
FromArray(d, ws, mode) ==
    FromBits(d, BitsOfWords([i \in DOMAIN ws |-> Range(ws[i])]), mode)
(* The Vec form: the full array form, at least as long as the largest        *)
(* variant needs (one word for small sets).                                  *)
VecOk(S, ws) ==
    /\ Len(ws) >= (IF D = {} THEN 1 ELSE WordsFor(Max(D)))
    /\ \A i \in DOMAIN ws : ws[i] = Asc(Word(S, i - 1))
    /\ Fits(S, WordBits * Len(ws))
ToVec(a, ws) == VecOk(reg[a], ws) /\ Only(Ok(ws))

(* A declared primitive representation of w bits.                            *)
Layout(w) == Only(Ok(<<w \div 8, w \div 8, 1>>))  \* size, size of R, aligned as R
Memory(a) == Only(Ok(Asc(reg[a])))               \* the bits in memory
AsRepr(a) == Only(Ok(Asc(reg[a])))

-----------------------------------------------------------------------------
(* Equality, order, hash.  Which total order is not specified, only that it  *)
(* is one, agrees with equality and never changes: `ord` is the transitively *)
(* closed set of facts <<A, B>> (A less than B) learned so far, `hsh` the    *)
(* hash values seen so far.                                                  *)
Eq(a, b) == Only(Ok(reg[a] = reg[b]))

LearnLess(A, B) ==
    LET below == {A} \cup {p[1] : p \in {q \in ord : q[2] = A}}
        above == {B} \cup {p[2] : p \in {q \in ord : q[1] = B}}
    IN IF <<A, B>> \in ord THEN UNCHANGED ord
       ELSE ord' = ord \cup (below \X above)
Cmp(a, b, c) ==
    /\ out' = Ok(c)
    /\ UNCHANGED <<decl, reg, it, hsh>>
    /\ CASE c = 0 -> reg[a] = reg[b] /\ UNCHANGED ord
         [] c = -1 -> /\ reg[a] # reg[b]
                      /\ <<reg[b], reg[a]>> \notin ord
                      /\ LearnLess(reg[a], reg[b])
         [] c = 1 -> /\ reg[a] # reg[b]
                     /\ <<reg[a], reg[b]>> \notin ord
                     /\ LearnLess(reg[b], reg[a])
(* Everything else that PartialOrd/Ord offer follows from the comparison:    *)
(* <, <=, >, >=, ==, !=, and max and min (as bits).                          *)
Learned(A, B) == CASE A = B -> 0
                   [] A # B /\ <<A, B>> \in ord -> -1
                   [] A # B /\ <<B, A>> \in ord -> 1
                   [] OTHER -> 99
CmpAll(a, b) ==
    LET c == Learned(reg[a], reg[b]) IN
    /\ c # 99
    /\ Only(Ok(<<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>))
Extremes(a, b) ==
    LET c == Learned(reg[a], reg[b]) IN
    /\ c # 99
    /\ Only(Ok(<<Asc(IF c > 0 THEN reg[a] ELSE reg[b]),
                 Asc(IF c > 0 THEN reg[b] ELSE reg[a])>>))

HashOf(a, h) ==
    /\ reg[a] \in DOMAIN hsh => hsh[reg[a]] = h
    /\ hsh' = (reg[a] :> h) @@ hsh
    /\ out' = Ok(h)
    /\ UNCHANGED <<decl, reg, it, ord>>

(* Sets as keys: the number of distinct keys among the variables rs, and the *)
(* variables at which a lookup of variable a succeeds.                       *)
DistinctKeys(rs) == Only(Ok(Cardinality({reg[r] : r \in Range(rs)})))
Lookup(a, rs) == Only(Ok(reg[a] \in {reg[r] : r \in Range(rs)}))

-----------------------------------------------------------------------------
(* Rendering.  names maps each element to its own rendering.                 *)
Join(names, S) ==
    LET s == Asc(S)
        f[n \in 0 .. Len(s)] ==
            IF n = 0 THEN ""
            ELSE f[n - 1] \o (IF n = 1 THEN "" ELSE " | ") \o names[s[n]]
    IN f[Len(s)]
Rendering(kind, names, S) ==
    IF kind = "debug" THEN "EnumSet(" \o Join(names, S) \o ")"
    ELSE Join(names, S)
Format(a, kind, names) == Only(Ok(Rendering(kind, names, reg[a])))
(* To a writer that takes at most lim characters (whole pieces only): an     *)
(* error if something was refused, and what was written is a prefix.         *)
FormatLimited(a, kind, names, lim, k, written) ==
    LET full == Rendering(kind, names, reg[a]) IN
    /\ k = IF Len(full) <= lim THEN "ok" ELSE "err"
    /\ k = "ok" => written = full
    /\ Len(written) <= Len(full) /\ written = SubSeq(full, 1, Len(written))
    /\ Only([k |-> k, r |-> written])

-----------------------------------------------------------------------------
(* Invariants.                                                               *)
OnlyVariants == /\ \A a \in DOMAIN reg : reg[a] \subseteq D
                /\ \A i \in DOMAIN it : it[i] \subseteq D
OrdIsOrder == \A p \in ord : p[1] # p[2] /\ <<p[2], p[1]>> \notin ord
=============================================================================
