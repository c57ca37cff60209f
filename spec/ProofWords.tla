---------------------------- MODULE ProofWords -----------------------------
(* For every number of words and every word width: the word-wise operations  *)
(* of the representations (WordOps)  are the set operations of EnumSetSpec   *)
(* under the abstraction AbsSet.  TLC checks the same, with iterators and    *)
(* conversions, for small layouts; this is the part that a proof covers      *)
(* without bounds.                                                           *)
EXTENDS WordOps, TLAPS

ASSUME Sizes == NW \in Nat \ {0} /\ WordBits \in Nat \ {0}

Arr == [W0 -> SUBSET Bit]

LEMMA Smaller == ASSUME NEW i \in Nat, NEW j \in Nat, i < j
                 PROVE i * WordBits + WordBits <= j * WordBits
<1>1. (i + 1) * WordBits <= j * WordBits
  <2> DEFINE k == j - (i + 1)
  <2>1. k \in Nat /\ j = i + 1 + k  OBVIOUS
  <2>2. j * WordBits = (i + 1) * WordBits + k * WordBits  BY <2>1, Sizes, Z3
  <2>3. k * WordBits \in Nat  BY <2>1, Sizes, Z3
  <2> QED  BY <2>2, <2>3, Sizes, Z3
<1> QED  BY <1>1, Sizes, Z3

LEMMA Unique == ASSUME NEW i \in Nat, NEW j \in Nat, NEW t \in Bit, NEW u \in Bit,
                       i * WordBits + t = j * WordBits + u
                PROVE i = j /\ t = u
<1>0. i * WordBits \in Nat /\ j * WordBits \in Nat BY Sizes, Z3
<1>1. ~ (i < j)  BY <1>0, Smaller, Sizes DEF Bit
<1>2. ~ (j < i)  BY <1>0, Smaller, Sizes DEF Bit
<1>3. i = j BY <1>1, <1>2
<1> QED BY <1>0, <1>3, Sizes DEF Bit

LEMMA Member == ASSUME NEW x \in Arr, NEW i \in W0, NEW t \in Bit
                PROVE (i * WordBits + t \in AbsSet(x)) <=> (t \in x[i])
<1>1. ASSUME NEW j \in W0, NEW u \in x[j], i * WordBits + t = j * WordBits + u
      PROVE t \in x[i]
  <2>1. i \in Nat /\ j \in Nat /\ u \in Bit BY Sizes DEF W0, Arr
  <2> QED BY <1>1, <2>1, Unique
<1> QED BY <1>1 DEF AbsSet

LEMMA Shape == ASSUME NEW x \in Arr, NEW b \in AbsSet(x)
               PROVE \E i \in W0, t \in Bit : b = i * WordBits + t /\ t \in x[i]
BY DEF AbsSet, Arr

THEOREM OrIsUnion == ASSUME NEW x \in Arr, NEW y \in Arr
                     PROVE AbsSet(Or(x, y)) = AbsSet(x) \cup AbsSet(y)
<1>1. Or(x, y) \in Arr BY DEF Or, Arr
<1>2. ASSUME NEW b \in AbsSet(Or(x, y)) PROVE b \in AbsSet(x) \cup AbsSet(y)
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in Or(x, y)[i] BY <1>1, Shape
  <2>2. t \in x[i] \/ t \in y[i] BY <2>1 DEF Or
  <2> QED BY <2>1, <2>2, Member
<1>3. ASSUME NEW z \in {x, y}, NEW b \in AbsSet(z) PROVE b \in AbsSet(Or(x, y))
  <2>0. z \in Arr OBVIOUS
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in z[i] BY <2>0, Shape
  <2>2. t \in Or(x, y)[i] BY <2>1 DEF Or
  <2> QED BY <1>1, <2>1, <2>2, Member
<1> QED BY <1>2, <1>3

THEOREM AndIsIntersection == ASSUME NEW x \in Arr, NEW y \in Arr
                             PROVE AbsSet(And(x, y)) = AbsSet(x) \cap AbsSet(y)
<1>1. And(x, y) \in Arr BY DEF And, Arr
<1>2. AbsSet(And(x, y)) \subseteq AbsSet(x) \cap AbsSet(y) BY DEF AbsSet, And, Arr
<1>3. ASSUME NEW b \in AbsSet(x) \cap AbsSet(y) PROVE b \in AbsSet(And(x, y))
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in x[i] BY Shape
  <2>2. t \in y[i] BY <2>1, Member
  <2>3. t \in And(x, y)[i] BY <2>1, <2>2 DEF And
  <2> QED BY <1>1, <2>1, <2>3, Member
<1> QED BY <1>2, <1>3

THEOREM AndNotIsDifference == ASSUME NEW x \in Arr, NEW y \in Arr
                              PROVE AbsSet(AndNot(x, y)) = AbsSet(x) \ AbsSet(y)
<1>1. AndNot(x, y) \in Arr BY DEF AndNot, Arr
<1>2. ASSUME NEW b \in AbsSet(AndNot(x, y)) PROVE b \in AbsSet(x) \ AbsSet(y)
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in AndNot(x, y)[i] BY <1>1, Shape
  <2>2. t \in x[i] /\ t \notin y[i] BY <2>1 DEF AndNot
  <2> QED BY <2>1, <2>2, Member
<1>3. ASSUME NEW b \in AbsSet(x) \ AbsSet(y) PROVE b \in AbsSet(AndNot(x, y))
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in x[i] BY Shape
  <2>2. t \notin y[i] BY <2>1, Member, <1>3
  <2>3. t \in AndNot(x, y)[i] BY <2>1, <2>2 DEF AndNot
  <2> QED BY <1>1, <2>1, <2>3, Member
<1> QED BY <1>2, <1>3

THEOREM XorIsSymmetricDifference ==
    ASSUME NEW x \in Arr, NEW y \in Arr
    PROVE AbsSet(Xor(x, y)) = (AbsSet(x) \ AbsSet(y)) \cup (AbsSet(y) \ AbsSet(x))
<1>1. Xor(x, y) = Or(AndNot(x, y), AndNot(y, x)) BY DEF Xor, Or, AndNot, Arr
<1>2. AndNot(x, y) \in Arr /\ AndNot(y, x) \in Arr BY DEF AndNot, Arr
<1> QED BY <1>1, <1>2, OrIsUnion, AndNotIsDifference

THEOREM ZeroIsEmpty == ASSUME NEW x \in Arr PROVE IsZero(x) <=> AbsSet(x) = {}
<1>1. ASSUME IsZero(x) PROVE AbsSet(x) = {} BY <1>1 DEF IsZero, AbsSet
<1>2. ASSUME AbsSet(x) = {}, NEW i \in W0 PROVE x[i] = {}
  <2>1. ASSUME NEW t \in x[i] PROVE FALSE
    <3>1. t \in Bit BY <2>1 DEF Arr
    <3> QED BY <3>1, <2>1, <1>2, Member
  <2> QED BY <2>1
<1> QED BY <1>1, <1>2 DEF IsZero

THEOREM EqualIsEqual == ASSUME NEW x \in Arr, NEW y \in Arr
                        PROVE (x = y) <=> (AbsSet(x) = AbsSet(y))
<1>1. ASSUME AbsSet(x) = AbsSet(y), NEW i \in W0 PROVE x[i] = y[i]
  <2>1. ASSUME NEW t \in Bit PROVE t \in x[i] <=> t \in y[i] BY <1>1, Member
  <2>2. x[i] \subseteq Bit /\ y[i] \subseteq Bit BY DEF Arr
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1 DEF Arr

THEOREM SubsetByAnd == ASSUME NEW x \in Arr, NEW y \in Arr
                       PROVE (And(x, y) = x) <=> (AbsSet(x) \subseteq AbsSet(y))
<1>1. And(x, y) \in Arr BY DEF And, Arr
<1> QED BY <1>1, EqualIsEqual, AndIsIntersection

THEOREM DisjointByAnd == ASSUME NEW x \in Arr, NEW y \in Arr
                         PROVE IsZero(And(x, y)) <=> (AbsSet(x) \cap AbsSet(y) = {})
<1>1. And(x, y) \in Arr BY DEF And, Arr
<1> QED BY <1>1, ZeroIsEmpty, AndIsIntersection

(* The mask of all variants, and the complement masked with it.              *)
Within == \A b \in dis : \E i \in W0, t \in Bit : b = i * WordBits + t
THEOREM AllIsDeclared == ASSUME Within PROVE ALL \in Arr /\ AbsSet(ALL) = dis
<1>1. ALL \in Arr BY DEF ALL, Arr
<1>2. ASSUME NEW b \in dis PROVE b \in AbsSet(ALL)
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t BY DEF Within
  <2>2. t \in ALL[i] BY <2>1 DEF ALL
  <2> QED BY <1>1, <2>1, <2>2, Member
<1>3. ASSUME NEW b \in AbsSet(ALL) PROVE b \in dis
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in ALL[i] BY <1>1, Shape
  <2> QED BY <2>1 DEF ALL
<1> QED BY <1>1, <1>2, <1>3

THEOREM ComplementIsExact == ASSUME Within, NEW x \in Arr
                             PROVE AbsSet(And(Not(x), ALL)) = dis \ AbsSet(x)
<1>1. ALL \in Arr /\ AbsSet(ALL) = dis BY AllIsDeclared
<1>2. And(Not(x), ALL) = AndNot(ALL, x) BY <1>1 DEF And, Not, AndNot, Arr
<1> QED BY <1>1, <1>2, AndNotIsDifference

(* Single bits, at word b \div WordBits and bit b % WordBits.                *)
LEMMA Split == ASSUME NEW i \in W0, NEW t \in Bit, NEW v, v = i * WordBits + t
               PROVE SplitW(v) = i /\ SplitB(v) = t
<1>1. i \in Nat /\ t \in 0 .. WordBits - 1 /\ WordBits \in Nat \ {0} /\ i * WordBits \in Nat BY Sizes, Z3 DEF W0, Bit
<1>2. v \in Nat BY <1>1
<1>3. SplitW(v) \in Nat /\ SplitB(v) \in Bit /\ v = SplitW(v) * WordBits + SplitB(v)
  BY <1>1, <1>2, Z3 DEF SplitW, SplitB, Bit
<1> QED BY <1>1, <1>3, Unique

THEOREM HasBitIsMember == ASSUME Within, NEW v \in dis, NEW x \in Arr
                          PROVE HasBit(x, v) <=> v \in AbsSet(x)
<1>1. PICK i \in W0, t \in Bit : v = i * WordBits + t BY DEF Within
<1>2. SplitW(v) = i /\ SplitB(v) = t BY <1>1, Split
<1> QED BY <1>1, <1>2, Member DEF HasBit

THEOREM AddBitInserts == ASSUME Within, NEW v \in dis, NEW x \in Arr
                         PROVE AddBit(x, v) \in Arr /\ AbsSet(AddBit(x, v)) = AbsSet(x) \cup {v}
<1>1. PICK i \in W0, t \in Bit : v = i * WordBits + t BY DEF Within
<1>2. SplitW(v) = i /\ SplitB(v) = t BY <1>1, Split
<1> DEFINE y == AddBit(x, v)
<1>3. y = [x EXCEPT ![i] = x[i] \cup {t}] BY <1>2 DEF AddBit
<1>4. y \in Arr BY <1>3 DEF Arr
<1>5. y[i] = x[i] \cup {t} /\ \A j \in W0 : j # i => y[j] = x[j] BY <1>3 DEF Arr
<1>6. ASSUME NEW b \in AbsSet(y) PROVE b \in AbsSet(x) \cup {v}
  <2>1. PICK j \in W0, u \in Bit : b = j * WordBits + u /\ u \in y[j] BY <1>4, Shape
  <2>2. CASE u \in x[j] BY <2>1, <2>2, Member
  <2>3. CASE u \notin x[j] BY <2>1, <2>3, <1>5, <1>1
  <2> QED BY <2>2, <2>3
<1>7. ASSUME NEW b \in AbsSet(x) \cup {v} PROVE b \in AbsSet(y)
  <2>1. CASE b = v BY <2>1, <1>1, <1>4, <1>5, Member
  <2>2. CASE b \in AbsSet(x)
    <3>1. PICK j \in W0, u \in Bit : b = j * WordBits + u /\ u \in x[j] BY <2>2, Shape
    <3>2. u \in y[j] BY <3>1, <1>5
    <3> QED BY <3>1, <3>2, <1>4, Member
  <2> QED BY <2>1, <2>2, <1>7
<1> QED BY <1>4, <1>6, <1>7

THEOREM RemoveBitRemoves == ASSUME Within, NEW v \in dis, NEW x \in Arr
                            PROVE RemoveBit(x, v) \in Arr /\ AbsSet(RemoveBit(x, v)) = AbsSet(x) \ {v}
<1>1. PICK i \in W0, t \in Bit : v = i * WordBits + t BY DEF Within
<1>2. SplitW(v) = i /\ SplitB(v) = t BY <1>1, Split
<1> DEFINE y == RemoveBit(x, v)
<1>3. y = [x EXCEPT ![i] = x[i] \ {t}] BY <1>2 DEF RemoveBit
<1>4. y \in Arr BY <1>3 DEF Arr
<1>5. y[i] = x[i] \ {t} /\ \A j \in W0 : j # i => y[j] = x[j] BY <1>3 DEF Arr
<1>6. ASSUME NEW b \in AbsSet(y) PROVE b \in AbsSet(x) \ {v}
  <2>1. PICK j \in W0, u \in Bit : b = j * WordBits + u /\ u \in y[j] BY <1>4, Shape
  <2>2. u \in x[j] BY <2>1, <1>5
  <2>3. b \in AbsSet(x) BY <2>1, <2>2, Member
  <2>4. ASSUME b = v PROVE FALSE
    <3>1. i \in Nat /\ j \in Nat BY Sizes DEF W0
    <3>2. i = j /\ t = u BY <3>1, <2>4, <2>1, <1>1, Unique
    <3> QED BY <3>2, <2>1, <1>5
  <2> QED BY <2>3, <2>4
<1>7. ASSUME NEW b \in AbsSet(x) \ {v} PROVE b \in AbsSet(y)
  <2>1. PICK j \in W0, u \in Bit : b = j * WordBits + u /\ u \in x[j] BY <1>7, Shape
  <2>2. ~ (j = i /\ u = t) BY <2>1, <1>1, <1>7
  <2>3. u \in y[j] BY <2>1, <2>2, <1>5
  <2> QED BY <2>1, <2>3, <1>4, Member
<1> QED BY <1>4, <1>6, <1>7

(* Checked constructors accept exactly the valid masks.                      *)
THEOREM CheckedIsExact == ASSUME Within, NEW x \in Arr
                          PROVE (Checked(<<x>>) = <<x>>) <=> (AbsSet(x) \subseteq dis)
<1>1. ALL \in Arr /\ AbsSet(ALL) = dis BY AllIsDeclared
<1>2. AndNot(x, ALL) \in Arr BY DEF AndNot, Arr
<1>3. IsZero(AndNot(x, ALL)) <=> AbsSet(x) \subseteq dis BY <1>1, <1>2, ZeroIsEmpty, AndNotIsDifference
<1>4. <<x>> # <<>> OBVIOUS
<1>5. <<x>>[1] = x OBVIOUS
<1> QED BY <1>3, <1>4, <1>5 DEF Checked

THEOREM TruncatedKeepsVariants == ASSUME Within, NEW x \in Arr
                                  PROVE AbsSet(And(x, ALL)) = AbsSet(x) \cap dis
BY AllIsDeclared, AndIsIntersection

(* Fitting into k words.                                                     *)
THEOREM HighZeroMeansFits ==
    ASSUME NEW x \in Arr, NEW k \in Nat
    PROVE  HighZero(x, k) <=> \A b \in AbsSet(x) : b < k * WordBits
<1>0. k * WordBits \in Nat BY Sizes, Z3
<1>1. ASSUME HighZero(x, k), NEW b \in AbsSet(x) PROVE b < k * WordBits
  <2>1. PICK i \in W0, t \in Bit : b = i * WordBits + t /\ t \in x[i] BY Shape
  <2>2. i \in Nat /\ i < k BY <2>1, <1>1, Sizes DEF HighZero, W0
  <2>3. i * WordBits + WordBits <= k * WordBits BY <2>2, Smaller
  <2>4. i * WordBits \in Nat BY <2>2, Sizes, Z3
  <2> QED BY <1>0, <2>1, <2>3, <2>4, Sizes DEF Bit
<1>2. ASSUME \A b \in AbsSet(x) : b < k * WordBits, NEW i \in W0, i >= k PROVE x[i] = {}
  <2>0. i \in Nat BY Sizes DEF W0
  <2>1. ASSUME NEW t \in x[i] PROVE FALSE
    <3>1. t \in Bit BY <2>1 DEF Arr
    <3>2. i * WordBits + t < k * WordBits BY <1>2, <2>1, <3>1, Member
    <3>3. i = k \/ k * WordBits + WordBits <= i * WordBits BY <1>2, <2>0, Smaller
    <3>4. i * WordBits \in Nat BY <2>0, Sizes, Z3
    <3> QED BY <1>0, <3>1, <3>2, <3>3, <3>4, Sizes DEF Bit
  <2> QED BY <2>1
<1> QED BY <1>1, <1>2 DEF HighZero

(* Iterators: every turn of the loops of next and next_back.                 *)
Iter == [data : Arr, f : Nat, r : W0, done : BOOLEAN]

LEMMA ItShape == ASSUME NEW s \in Iter, NEW b
                 PROVE (b \in AbsIt(s)) <=>
                       \E i \in s.f .. s.r, t \in Bit : b = i * WordBits + t /\ t \in s.data[i]
<1>1. \A i \in s.f .. s.r : i \in W0 BY Sizes DEF Iter, W0
<1>2. \A i \in s.f .. s.r : s.data[i] \subseteq Bit BY <1>1 DEF Iter, Arr
<1> QED BY <1>2 DEF AbsIt

THEOREM SkipFront == ASSUME NEW s \in Iter, s.f <= s.r, s.data[s.f] = {}
                     PROVE AbsIt([s EXCEPT !.f = @ + 1]) = AbsIt(s)
<1> DEFINE u == [s EXCEPT !.f = @ + 1]
<1>1. u \in Iter /\ u.data = s.data /\ u.f = s.f + 1 /\ u.r = s.r BY DEF Iter
<1>2. s.r \in Int /\ s.f \in Nat BY Sizes DEF Iter, W0
<1>3. \A i \in s.f .. s.r : i = s.f \/ i \in u.f .. u.r BY <1>1, <1>2
<1>4. \A i \in u.f .. u.r : i \in s.f .. s.r BY <1>1, <1>2
<1>5. ASSUME NEW b PROVE b \in AbsIt(u) <=> b \in AbsIt(s)
  <2>1. b \in AbsIt(u) => b \in AbsIt(s) BY <1>1, <1>4, ItShape
  <2>2. b \in AbsIt(s) => b \in AbsIt(u) BY <1>1, <1>3, ItShape
  <2> QED BY <2>1, <2>2
<1> QED BY <1>5

THEOREM SkipBack == ASSUME NEW s \in Iter, s.f <= s.r, s.data[s.r] = {}, s.r # 0
                    PROVE AbsIt([s EXCEPT !.r = @ - 1]) = AbsIt(s)
<1> DEFINE u == [s EXCEPT !.r = @ - 1]
<1>1. u \in Iter /\ u.data = s.data /\ u.f = s.f /\ u.r = s.r - 1 BY Sizes DEF Iter, W0
<1>2. s.r \in Int /\ s.f \in Nat BY Sizes DEF Iter, W0
<1>3. \A i \in s.f .. s.r : i = s.r \/ i \in u.f .. u.r BY <1>1, <1>2
<1>4. \A i \in u.f .. u.r : i \in s.f .. s.r BY <1>1, <1>2
<1>5. ASSUME NEW b PROVE b \in AbsIt(u) <=> b \in AbsIt(s)
  <2>1. b \in AbsIt(u) => b \in AbsIt(s) BY <1>1, <1>4, ItShape
  <2>2. b \in AbsIt(s) => b \in AbsIt(u) BY <1>1, <1>3, ItShape
  <2> QED BY <2>1, <2>2
<1> QED BY <1>5

THEOREM NothingLeft == ASSUME NEW s \in Iter, s.f > s.r \/ (s.f = s.r /\ s.data[s.r] = {})
                       PROVE AbsIt(s) = {}
<1>1. s.r \in Int /\ s.f \in Nat BY Sizes DEF Iter, W0
<1>2. ASSUME NEW b \in AbsIt(s) PROVE FALSE
  <2>1. PICK i \in s.f .. s.r, t \in Bit : b = i * WordBits + t /\ t \in s.data[i] BY ItShape
  <2> QED BY <1>1, <2>1
<1> QED BY <1>2

THEOREM FrontIsLeast ==
    ASSUME NEW s \in Iter, s.f <= s.r, NEW m \in s.data[s.f], \A t \in s.data[s.f] : m <= t
    PROVE  /\ s.f * WordBits + m \in AbsIt(s)
           /\ \A b \in AbsIt(s) : s.f * WordBits + m <= b
<1>1. s.r \in Int /\ s.f \in Nat /\ s.f \in s.f .. s.r /\ s.f \in W0 BY Sizes DEF Iter, W0
<1>2. m \in Bit BY <1>1 DEF Iter, Arr
<1>3. ASSUME NEW b \in AbsIt(s) PROVE s.f * WordBits + m <= b
  <2>1. PICK i \in s.f .. s.r, t \in Bit : b = i * WordBits + t /\ t \in s.data[i] BY ItShape
  <2>2. i \in Nat BY <1>1
  <2>3. i * WordBits \in Nat /\ s.f * WordBits \in Nat BY <1>1, <2>2, Sizes, Z3
  <2>4. CASE i = s.f BY <2>1, <2>3, <2>4, <1>2, Sizes DEF Bit
  <2>5. CASE s.f < i
    <3>1. s.f * WordBits + WordBits <= i * WordBits BY <1>1, <2>2, <2>5, Smaller
    <3> QED BY <3>1, <2>1, <2>3, <1>2, Sizes DEF Bit
  <2> QED BY <1>1, <2>4, <2>5
<1> QED BY <1>1, <1>2, <1>3, ItShape

THEOREM BackIsGreatest ==
    ASSUME NEW s \in Iter, s.f <= s.r, NEW m \in s.data[s.r], \A t \in s.data[s.r] : t <= m
    PROVE  /\ s.r * WordBits + m \in AbsIt(s)
           /\ \A b \in AbsIt(s) : b <= s.r * WordBits + m
<1>1. s.r \in Nat /\ s.f \in Nat /\ s.r \in s.f .. s.r /\ s.r \in W0 BY Sizes DEF Iter, W0
<1>2. m \in Bit BY <1>1 DEF Iter, Arr
<1>3. ASSUME NEW b \in AbsIt(s) PROVE b <= s.r * WordBits + m
  <2>1. PICK i \in s.f .. s.r, t \in Bit : b = i * WordBits + t /\ t \in s.data[i] BY ItShape
  <2>2. i \in Nat BY <1>1
  <2>3. i * WordBits \in Nat /\ s.r * WordBits \in Nat BY <1>1, <2>2, Sizes, Z3
  <2>4. CASE i = s.r BY <2>1, <2>3, <2>4, <1>2, Sizes DEF Bit
  <2>5. CASE i < s.r
    <3>1. i * WordBits + WordBits <= s.r * WordBits BY <1>1, <2>2, <2>5, Smaller
    <3> QED BY <3>1, <2>1, <2>3, <1>2, Sizes DEF Bit
  <2> QED BY <1>1, <2>4, <2>5
<1> QED BY <1>1, <1>2, <1>3, ItShape

THEOREM TakingRemovesOne ==
    ASSUME NEW s \in Iter, NEW w \in s.f .. s.r, NEW m \in s.data[w]
    PROVE  AbsIt([s EXCEPT !.data[w] = @ \ {m}]) = AbsIt(s) \ {w * WordBits + m}
<1> DEFINE u == [s EXCEPT !.data[w] = @ \ {m}]
<1>1. s.r \in Nat /\ s.f \in Nat /\ w \in Nat /\ w \in W0 BY Sizes DEF Iter, W0
<1>2. u \in Iter /\ u.f = s.f /\ u.r = s.r BY <1>1 DEF Iter, Arr
<1>3. u.data[w] = s.data[w] \ {m} /\ \A i \in W0 : i # w => u.data[i] = s.data[i] BY <1>1 DEF Iter, Arr
<1>4. \A i \in s.f .. s.r : i \in W0 /\ i \in Nat BY Sizes, <1>1 DEF Iter, W0
<1>5. m \in Bit BY <1>1 DEF Iter, Arr
<1>6. ASSUME NEW b \in AbsIt(u) PROVE b \in AbsIt(s) \ {w * WordBits + m}
  <2>1. PICK i \in s.f .. s.r, t \in Bit : b = i * WordBits + t /\ t \in u.data[i] BY <1>2, ItShape
  <2>2. t \in s.data[i] BY <2>1, <1>3, <1>4
  <2>3. b \in AbsIt(s) BY <2>1, <2>2, ItShape
  <2>4. ASSUME b = w * WordBits + m PROVE FALSE
    <3>1. i = w /\ t = m BY <2>1, <2>4, <1>1, <1>4, <1>5, Unique
    <3> QED BY <3>1, <2>1, <1>3
  <2> QED BY <2>3, <2>4
<1>7. ASSUME NEW b \in AbsIt(s) \ {w * WordBits + m} PROVE b \in AbsIt(u)
  <2>1. PICK i \in s.f .. s.r, t \in Bit : b = i * WordBits + t /\ t \in s.data[i] BY ItShape
  <2>2. ~ (i = w /\ t = m) BY <2>1, <1>7
  <2>3. t \in u.data[i] BY <2>1, <2>2, <1>3, <1>4
  <2> QED BY <2>1, <2>3, <1>2, ItShape
<1> QED BY <1>6, <1>7
=============================================================================
