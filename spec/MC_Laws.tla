------------------------------ MODULE MC_Laws -------------------------------
(* What the properties say, checked on the specification itself: laws that   *)
(* must hold of the operators whichever declaration, sets and numbers.       *)
(* Here words have 2 bits and "integers" any width, so that TLC can go       *)
(* through all of them.                                                      *)
EXTENDS Calls

CONSTANTS MaxBit    \* discriminants below this

VARIABLE front, back, start     \* the iteration so far (P04)
lvars == <<decl, reg, it, ord, hsh, out, front, back, start>>

Kinds == {"list", "map", "array"}
Declarations == [D : SUBSET (0 .. MaxBit - 1), w : {0}, kind : Kinds, deny : BOOLEAN]
LInit == /\ decl \in Declarations
         /\ reg = <<{}, {}>> /\ it = <<>> /\ ord = {} /\ hsh = <<>>
         /\ out = Ok(Unit) /\ front = <<>> /\ back = <<>> /\ start = {}
Stay == UNCHANGED lvars
LStatic == LInit /\ [][Stay]_lvars

(* P01 *)
LawAlgebra ==
    \A A, B \in SUBSET D :
        /\ Bin("sub", A, B) = Bin("and", A, D \ B)
        /\ Bin("xor", A, B) = Bin("sub", Bin("or", A, B), Bin("and", A, B))
        /\ D \ Bin("or", A, B) = Bin("and", D \ A, D \ B)
        /\ D \ (D \ A) = A
        /\ (A \subseteq B) = (Bin("or", A, B) = B)
        /\ (A \subseteq B) = (Bin("sub", A, B) = {})
        /\ (A \cap B = {}) = (Bin("and", A, B) = {})
        /\ Cardinality(A) + Cardinality(B)
             = Cardinality(Bin("or", A, B)) + Cardinality(Bin("and", A, B))
        /\ \A f \in BinOps : Bin(f, A, B) \subseteq D
(* P05, P06: conversions of numbers are inverse to each other on what is     *)
(* valid, the truncating ones total, the fallible ones fail exactly when the *)
(* truncating one loses something.                                           *)
Widths == 1 .. MaxBit + 1
LawNumbers ==
    \A A \in SUBSET D, w \in Widths :
        LET try == ToNum(A, w, "try")
            trunc == ToNum(A, w, "trunc")
            panic == ToNum(A, w, "panic")
        IN /\ try.k \in {"ok", "none"} /\ trunc.k = "ok" /\ panic.k \in {"ok", "panic"}
           /\ (try.k = "none") = (panic.k = "panic")
           /\ try.k = "ok" => try = trunc /\ Range(try.r) = A
           /\ (try.k = "none") = (Range(trunc.r) # A)
           /\ Range(trunc.r) = {x \in A : x < w}
(* P07 *)
LawArrays ==
    \A A \in SUBSET D, n \in 0 .. 3 :
        LET try == ToArr(A, n, "try")
            trunc == ToArr(A, n, "trunc")
            got == {x \in UNION {{WordBits * (i - 1) + b : b \in Range(trunc.r[i])}
                                 : i \in 1 .. n} : TRUE}
        IN /\ Len(trunc.r) = n
           /\ got = {x \in A : x < WordBits * n}
           /\ (try.k = "ok") = (got = A)
           /\ try.k = "ok" => try = trunc
           /\ n > MaxBit \div WordBits => VecOk(A, trunc.r)
(* P09, P10 *)
LawDocuments ==
    LET n == IF D = {} THEN 1 ELSE WordsFor(Max(D)) IN
    \A A \in SUBSET D :
        /\ IsDocOf(A, decl.kind, DocOf(A, decl.kind, n))
        /\ WellTyped(decl.kind, DocOf(A, decl.kind, n))
        /\ DocBits(DocOf(A, decl.kind, n)) = A
        /\ \A B \in SUBSET D : IsDocOf(B, decl.kind, DocOf(A, decl.kind, n)) => A = B
(* P15: the rendering determines the set.                                    *)
LawRendering ==
    LET names == [x \in D |-> CASE x = 0 -> "A" [] x = 1 -> "AB" [] x = 2 -> "B"
                                [] x = 3 -> "" [] x = 4 -> "C" [] x = 5 -> "BA"
                                [] OTHER -> "D"]
    IN /\ Rendering("debug", names, {}) = "EnumSet()"
       /\ Rendering("display", names, {}) = ""
       /\ \A A, B \in SUBSET (D \ {3}) :
            Rendering("display", names, A) = Rendering("display", names, B) => A = B

-----------------------------------------------------------------------------
(* P04: what came from the front, then what is left, then what came from the *)
(* back in reverse is always the set in increasing order (nth counted as its *)
(* skipped elements too).                                                    *)
Took == out'.r
IInit == /\ decl \in [D : SUBSET (0 .. MaxBit - 1), w : {0}, kind : {"none"}, deny : {FALSE}]
         /\ \E S \in SUBSET decl.D : reg = <<S, {}>> /\ start = S
         /\ it = <<>> /\ ord = {} /\ hsh = <<>> /\ out = Ok(Unit)
         /\ front = <<>> /\ back = <<>>
INext ==
    \/ it = <<>> /\ NewIter(1, 1) /\ UNCHANGED <<front, back, start>>
    \/ it # <<>> /\
        \/ Next1(1) /\ front' = front \o Took /\ UNCHANGED <<back, start>>
        \/ NextBack1(1) /\ back' = back \o Took /\ UNCHANGED <<front, start>>
        \/ \E n \in 0 .. 2 :
            \/ Nth(1, n) /\ front' = front \o Asc(it[1] \ it'[1]) /\ UNCHANGED <<back, start>>
            \/ NthBack(1, n) /\ back' = back \o Desc(it[1] \ it'[1]) /\ UNCHANGED <<front, start>>
        \/ SizeHint(1) /\ UNCHANGED <<front, back, start>>
        \/ InsertV(1, Max(decl.D \cup {0})) /\ decl.D # {} /\ UNCHANGED <<front, back, start>>
ISpec == IInit /\ [][INext]_lvars
IView == <<decl, reg, it, front, back, start>>
IterationExact ==
    it # <<>> => front \o Asc(it[1]) \o Reverse(back) = Asc(start)
IterationExhausts == it # <<>> /\ it[1] = {} => Len(front) + Len(back) = Cardinality(start)

-----------------------------------------------------------------------------
(* P14: whatever is learned stays a strict order, and once every pair has    *)
(* been compared it is total.                                                *)
OInit == /\ decl = [D |-> 0 .. MaxBit - 1, w |-> 0, kind |-> "none", deny |-> FALSE]
         /\ reg \in [1 .. 3 -> SUBSET (0 .. MaxBit - 1)]
         /\ it = <<>> /\ ord = {} /\ hsh = <<>> /\ out = Ok(Unit)
         /\ front = <<>> /\ back = <<>> /\ start = {}
ONext == /\ UNCHANGED <<front, back, start>>
         /\ \E a, b \in 1 .. 3 :
            \/ \E c \in {-1, 0, 1} : Cmp(a, b, c)
            \/ CmpAll(a, b)
            \/ Extremes(a, b)
            \/ \E h \in 0 .. 1 : HashOf(a, h)
OSpec == OInit /\ [][ONext]_lvars
OView == <<decl, reg, ord, hsh>>
OrdTransitive == \A p, q \in ord : p[2] = q[1] => <<p[1], q[2]>> \in ord
CmpDetermined ==    \* at most one answer once learned
    \A a, b \in DOMAIN reg :
        Learned(reg[a], reg[b]) \in {-1, 0, 1}
        \/ (reg[a] # reg[b] /\ <<reg[a], reg[b]>> \notin ord /\ <<reg[b], reg[a]>> \notin ord)
=============================================================================
