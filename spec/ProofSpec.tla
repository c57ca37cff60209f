----------------------------- MODULE ProofSpec ------------------------------
(* For every enum, every number of set variables and iterators: no call      *)
(* makes a set or an iterator hold anything that is no variant (P03), and    *)
(* no call but those that write a variable changes it.                       *)
EXTENDS EnumSetSpec, TLAPS

R == DOMAIN reg

LEMMA Writing == ASSUME OnlyVariants, NEW d, NEW S \in SUBSET D, NEW o, Write(d, S, o)
                 PROVE OnlyVariants'
BY DEF OnlyVariants, Write, D, NoLearn

THEOREM Constructors ==
    ASSUME OnlyVariants, NEW d \in R, NEW a \in R, NEW b \in R, NEW v \in D, NEW u \in D,
           NEW f \in BinOps,
           \/ Empty(d) \/ All(d) \/ SingleV(d, v) \/ Copy(d, a) \/ Complement(d, a)
           \/ NotV(d, v) \/ Clear(d) \/ InsertV(d, v) \/ RemoveV(d, v)
           \/ InsertAll(d, a) \/ RemoveAll(d, a)
    PROVE  OnlyVariants'
BY Writing DEF R, OnlyVariants, Empty, All, SingleV, Copy, Complement, NotV, Clear, InsertV, RemoveV,
       InsertAll, RemoveAll

LEMMA BinWithin == ASSUME NEW f \in BinOps, NEW S, NEW X, NEW Y, X \subseteq S, Y \subseteq S
                   PROVE Bin(f, X, Y) \subseteq S
<1>1. CASE f = "or" BY <1>1 DEF Bin
<1>2. CASE f = "and" BY <1>2 DEF Bin
<1>3. CASE f = "sub" BY <1>3 DEF Bin
<1>4. CASE f = "xor" BY <1>4 DEF Bin, SymDiff
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF BinOps

THEOREM Operators ==
    ASSUME OnlyVariants, NEW d \in R, NEW a \in R, NEW b \in R, NEW v \in D, NEW u \in D,
           NEW f \in BinOps,
           BinOp(f, d, a, b) \/ BinVV(f, d, v, u) \/ BinVS(f, d, v, b) \/ BinSV(f, d, a, v)
    PROVE  OnlyVariants'
<1>1. /\ Bin(f, reg[a], reg[b]) \subseteq D /\ Bin(f, {v}, {u}) \subseteq D
      /\ Bin(f, {v}, reg[b]) \subseteq D /\ Bin(f, reg[a], {v}) \subseteq D
  BY BinWithin DEF OnlyVariants, R
<1> QED BY <1>1 DEF OnlyVariants, BinOp, BinVV, BinVS, BinSV, Write, D, NoLearn

THEOREM Sources ==
    ASSUME OnlyVariants, NEW d \in R, NEW vs, Range(vs) \subseteq D, NEW rs, Range(rs) \subseteq R,
           NEW given \in SUBSET D, NEW S,
           \/ ExtendElems(d, vs) \/ ExtendSets(d, rs) \/ ExtendCut(d, given, S)
           \/ FromElems(d, vs) \/ FromSets(d, rs)
    PROVE  OnlyVariants'
<1>1. UNION {reg[r] : r \in Range(rs)} \subseteq D BY DEF OnlyVariants, R
<1>2. ExtendCut(d, given, S) => S \subseteq D BY DEF OnlyVariants, R, ExtendCut
<1> QED BY <1>1, <1>2 DEF OnlyVariants, ExtendElems, ExtendSets, ExtendCut, FromElems, FromSets, Write, D, NoLearn, R

(* Whatever the bits, the mode and the width.                                *)
THEOREM Conversions ==
    ASSUME OnlyVariants, NEW d \in R, NEW B, NEW mode, NEW w, NEW ws,
           FromBits(d, B, mode) \/ FromInt(d, w, B, mode) \/ FromArray(d, ws, mode)
    PROVE  OnlyVariants'
<1>1. ASSUME NEW C, FromBits(d, C, mode) PROVE OnlyVariants'
  BY <1>1 DEF OnlyVariants, FromBits, Write, Only, D, NoLearn
<1> QED BY <1>1 DEF FromInt, FromArray

THEOREM Iterators ==
    ASSUME OnlyVariants, NEW i, NEW a \in R, NEW j \in DOMAIN it, NEW k, NEW front,
           NewIter(i, a) \/ IterClone(i, j) \/ (i \in DOMAIN it /\ (Yield(i, k, front) \/ Next1(i) \/ NextBack1(i)))
    PROVE  OnlyVariants'
<1>1. ASSUME NEW S, NEW o, S \subseteq D, WriteIt(i, S, o) PROVE OnlyVariants'
  <2>1. it' = [x \in {i} \cup DOMAIN it |-> IF x = i THEN S ELSE it[x]] BY <1>1 DEF WriteIt, :>, @@
  <2>2. decl' = decl /\ reg' = reg BY <1>1 DEF WriteIt
  <2> QED BY <1>1, <2>1, <2>2 DEF OnlyVariants, D
<1>2. CASE NewIter(i, a) BY <1>1, <1>2 DEF NewIter, OnlyVariants, R
<1>3. CASE IterClone(i, j) BY <1>1, <1>3 DEF IterClone, OnlyVariants
<1>4. CASE i \in DOMAIN it /\ Yield(i, k, front)
  <2>1. it[i] \subseteq D BY <1>4 DEF OnlyVariants
  <2> QED BY <1>1, <1>4, <2>1 DEF Yield
<1>5. CASE i \in DOMAIN it /\ (Next1(i) \/ NextBack1(i))
  <2>1. it[i] \subseteq D BY <1>5 DEF OnlyVariants
  <2>2. ASSUME NEW o, Only(o) PROVE OnlyVariants' BY <2>2 DEF Only, OnlyVariants, D, NoLearn
  <2> QED BY <1>1, <1>5, <2>1, <2>2 DEF Next1, NextBack1
<1> QED BY <1>2, <1>3, <1>4, <1>5

(* Calls that only look.                                                     *)
THEOREM Queries ==
    ASSUME OnlyVariants, NEW o, Only(o)
    PROVE  OnlyVariants' /\ reg' = reg /\ it' = it
BY DEF Only, OnlyVariants, D, NoLearn

(* A call that writes one variable leaves the others and the iterators.      *)
THEOREM Frame ==
    ASSUME NEW d, NEW S, NEW o, Write(d, S, o), NEW e \in DOMAIN reg, e # d
    PROVE  reg'[e] = reg[e] /\ it' = it /\ DOMAIN reg' = DOMAIN reg
BY DEF Write

(* The order that was learned stays an order.                                *)
Transitive == \A p \in ord, q \in ord : p[2] = q[1] => <<p[1], q[2]>> \in ord
Pairs == ord \subseteq (SUBSET D) \X (SUBSET D)

THEOREM LearningKeepsOrder ==
    ASSUME OrdIsOrder, Transitive, Pairs, NEW A \in SUBSET D, NEW B \in SUBSET D, A # B, <<B, A>> \notin ord,
           LearnLess(A, B), decl' = decl
    PROVE  OrdIsOrder' /\ Transitive' /\ Pairs'
<1>1. CASE <<A, B>> \in ord BY <1>1 DEF LearnLess, OrdIsOrder, Transitive, Pairs, D
<1>2. CASE <<A, B>> \notin ord
  <2> DEFINE below == {A} \cup {p[1] : p \in {q \in ord : q[2] = A}}
             above == {B} \cup {p[2] : p \in {q \in ord : q[1] = B}}
  <2>1. ord' = ord \cup (below \X above) BY <1>2 DEF LearnLess
  <2>2. below \subseteq SUBSET D /\ above \subseteq SUBSET D BY DEF Pairs
  <2>3. \A p \in ord : p = <<p[1], p[2]>> BY DEF Pairs
  <2>4. \A x \in below : x = A \/ <<x, A>> \in ord BY <2>3
  <2>5. \A y \in above : y = B \/ <<B, y>> \in ord BY <2>3
  <2>6. \A x \in below, y \in above : x # y /\ <<y, x>> \notin ord
    <3> SUFFICES ASSUME NEW x \in below, NEW y \in above PROVE x # y /\ <<y, x>> \notin ord OBVIOUS
    <3>1. (x = A \/ <<x, A>> \in ord) /\ (y = B \/ <<B, y>> \in ord) BY <2>4, <2>5
    <3>2. \A s, t, r : <<s, t>> \in ord /\ <<t, r>> \in ord => <<s, r>> \in ord BY DEF Transitive
    <3> QED BY <3>1, <3>2
  <2>7. OrdIsOrder'
    <3>1. \A s, t : <<s, t>> \in ord => s # t /\ <<t, s>> \notin ord BY DEF OrdIsOrder
    <3>2. \A p \in ord' : p = <<p[1], p[2]>> BY <2>1, <2>3
    <3>3. \A s, t : <<s, t>> \in ord' <=> (<<s, t>> \in ord \/ (s \in below /\ t \in above)) BY <2>1
    <3>4. \A x \in below, y \in above : ~(y \in below /\ x \in above)
      <4> SUFFICES ASSUME NEW x \in below, NEW y \in above, y \in below, x \in above PROVE FALSE OBVIOUS
      <4> QED BY <2>6
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <2>6 DEF OrdIsOrder
  <2>8. Transitive'
    <3>1. \A s, t, r : <<s, t>> \in ord /\ <<t, r>> \in ord => <<s, r>> \in ord BY DEF Transitive
    <3>2. \A p \in ord' : p = <<p[1], p[2]>> BY <2>1, <2>3
    <3>3. \A s, t : <<s, t>> \in ord' <=> (<<s, t>> \in ord \/ (s \in below /\ t \in above)) BY <2>1
    <3>4. \A s, x : <<s, x>> \in ord /\ x \in below => s \in below
      <4> SUFFICES ASSUME NEW s, NEW x, <<s, x>> \in ord, x \in below PROVE s \in below OBVIOUS
      <4>1. <<s, A>> \in ord BY <2>4, <3>1
      <4>2. <<s, A>>[1] = s /\ <<s, A>>[2] = A OBVIOUS
      <4> QED BY <4>1, <4>2
    <3>5. \A y, t : y \in above /\ <<y, t>> \in ord => t \in above
      <4> SUFFICES ASSUME NEW y, NEW t, <<y, t>> \in ord, y \in above PROVE t \in above OBVIOUS
      <4>1. <<B, t>> \in ord BY <2>5, <3>1
      <4>2. <<B, t>>[1] = B /\ <<B, t>>[2] = t OBVIOUS
      <4> QED BY <4>1, <4>2
    <3>6. \A x \in below, y \in above : ~(y \in below) BY <2>6
    <3>7. \A s, t, r : <<s, t>> \in ord' /\ <<t, r>> \in ord' => <<s, r>> \in ord'
      BY <3>1, <3>3, <3>4, <3>5, <3>6
    <3> QED BY <3>2, <3>7 DEF Transitive
  <2>9. Pairs' BY <2>1, <2>2 DEF Pairs, D
  <2> QED BY <2>7, <2>8, <2>9
<1> QED BY <1>1, <1>2
=============================================================================
