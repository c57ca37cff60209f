------------------------------ MODULE WordRepr ------------------------------
(* The memory representations, shaped like the code: a set variable is an    *)
(* array of NW words of WordBits bits (NW = 1 and PrimBits wide for the      *)
(* primitive representations), changed word by word; iterators are arrays of *)
(* word iterators with two indices.  The refinement theorem checked with TLC *)
(* is that every step, seen through the abstraction "element b is bit        *)
(* b % WordBits of word b / WordBits", is the step of EnumSetSpec for the    *)
(* same call.  So the algorithms below do what the abstract specification    *)
(* says for every layout within the bounds, and the conformance checks may   *)
(* compare the code with the abstract specification alone.                   *)
EXTENDS WordOps, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Cap,      \* bits of the representation: NW * WordBits for arrays,
                    \* possibly less for a primitive integer
          DS,       \* the declarations explored (sets of discriminants)
          NR,       \* set variables
          Make      \* which calls to make: subset of {"set", "iter", "conv"}

VARIABLES ws,       \* variables: 1..NR -> [0..NW-1 -> set of bits < WordBits]
          its,      \* iterators: <<>> or i -> [data, done, f, r]
          res,      \* outcome of the last call
          call      \* the last call
wvars == <<dis, ws, its, res, call>>

CountOnes(x) == LET f[i \in 0 .. NW] ==
                      IF i = 0 THEN 0 ELSE f[i - 1] + Cardinality(x[i - 1])
                IN f[NW]

-----------------------------------------------------------------------------
(* Iterators.                                                                *)
NewIt(x) == [data |-> x, done |-> FALSE, f |-> 0, r |-> NW - 1]
RECURSIVE NextLoop(_), BackLoop(_)
NextLoop(s) ==      \* <<result, iterator>>
    IF s.f <= s.r
    THEN IF s.data[s.f] # {}
         THEN LET b == Min(s.data[s.f])
              IN <<<<s.f * WordBits + b>>, [s EXCEPT !.data[s.f] = @ \ {b}]>>
         ELSE NextLoop([s EXCEPT !.f = @ + 1])
    ELSE <<<<>>, [s EXCEPT !.done = TRUE]>>
NextIt(s) == IF s.done THEN <<<<>>, s>> ELSE NextLoop(s)
BackLoop(s) ==
    IF s.f <= s.r
    THEN IF s.data[s.r] # {}
         THEN LET b == Max(s.data[s.r])
              IN <<<<s.r * WordBits + b>>, [s EXCEPT !.data[s.r] = @ \ {b}]>>
         ELSE IF s.r = 0 THEN <<<<>>, [s EXCEPT !.done = TRUE]>>
              ELSE BackLoop([s EXCEPT !.r = @ - 1])
    ELSE <<<<>>, [s EXCEPT !.done = TRUE]>>
BackIt(s) == IF s.done THEN <<<<>>, s>> ELSE BackLoop(s)
(* nth, nth_back as the default methods do them.                             *)
RECURSIVE NthIt(_, _), NthBackIt(_, _)
NthIt(s, n) == LET x == NextIt(s) IN
               IF n = 0 \/ x[1] = <<>> THEN x ELSE NthIt(x[2], n - 1)
NthBackIt(s, n) == LET x == BackIt(s) IN
                   IF n = 0 \/ x[1] = <<>> THEN x ELSE NthBackIt(x[2], n - 1)
SizeHintIt(s) == LET f[i \in (s.f - 1) .. s.r] ==
                       IF i < s.f THEN 0 ELSE f[i - 1] + Cardinality(s.data[i])
                 IN IF s.f > s.r THEN 0 ELSE f[s.r]

-----------------------------------------------------------------------------
(* Conversions.  An integer of w bits is a set of positions below w; "u64"   *)
(* is WordBits wide and "u128" twice that; narrower ones as given.           *)
ToU64(x) == x[0]
ToU128(x) == x[0] \cup (IF NW = 1 THEN {} ELSE {WordBits + b : b \in x[1]})
Low(n, w) == {b \in n : b < w}
IntOpt(x, w) ==     \* to_uN_opt: <<>> or <<n>>
    IF w > WordBits THEN IF HighZero(x, 2) THEN <<ToU128(x)>> ELSE <<>>
    ELSE IF HighZero(x, 1) /\ Low(ToU64(x), w) = ToU64(x)
         THEN <<ToU64(x)>> ELSE <<>>
IntTrunc(x, w) == IF w > WordBits THEN ToU128(x) ELSE Low(ToU64(x), w)
FromIntTrunc(m) ==
    LET n == Low(m, Cap) IN
    [i \in W0 |-> IF i = 0 THEN Low(n, WordBits)
                  ELSE IF i = 1 THEN {b - WordBits : b \in n \ Low(n, WordBits)}
                  ELSE {}]
FromIntOpt(n, w) ==
    IF Low(n, Cap) # n THEN <<>> ELSE <<FromIntTrunc(n)>>

ToSlice(x, n) == [i \in 0 .. n - 1 |-> IF i < NW THEN x[i] ELSE {}]
ToSliceOpt(x, n) ==
    IF NW > n /\ ~HighZero(x, n) THEN <<>> ELSE <<ToSlice(x, n)>>
FromSlice(s, n) ==
    [i \in W0 |-> IF i < n THEN {b \in s[i] : i * WordBits + b < Cap} ELSE {}]
FromSliceOpt(s, n) ==
    IF \E i \in 0 .. n - 1, b \in Bit : i * WordBits + b >= Cap /\ b \in s[i]
    THEN <<>>
    ELSE <<FromSlice(s, n)>>

-----------------------------------------------------------------------------
Asc(S) == SortSeq(SetToSeq(S), <)
Ok(r) == [k |-> "ok", r |-> r]
NoneR == [k |-> "none", r |-> <<>>]
Same == UNCHANGED <<ws, its>>
Put(d, x) == ws' = [ws EXCEPT ![d] = x] /\ UNCHANGED its /\ res' = Ok(0)
Q(r) == res' = Ok(r) /\ Same
Regs == 1 .. NR

SetCalls ==
    \/ \E d \in Regs :
        \/ call' = [op |-> "empty", d |-> d] /\ Put(d, Zero)
        \/ call' = [op |-> "all", d |-> d] /\ Put(d, ALL)
        \/ call' = [op |-> "len", a |-> d] /\ Q(CountOnes(ws[d]))
        \/ call' = [op |-> "is_empty", a |-> d] /\ Q(IsZero(ws[d]))
    \/ \E d \in Regs, v \in dis :
        \/ /\ call' = [op |-> "insert", d |-> d, v |-> v]
           /\ ws' = [ws EXCEPT ![d] = AddBit(@, v)] /\ UNCHANGED its
           /\ res' = Ok(~HasBit(ws[d], v))
        \/ /\ call' = [op |-> "remove", d |-> d, v |-> v]
           /\ ws' = [ws EXCEPT ![d] = RemoveBit(@, v)] /\ UNCHANGED its
           /\ res' = Ok(HasBit(ws[d], v))
        \/ call' = [op |-> "contains", a |-> d, v |-> v] /\ Q(HasBit(ws[d], v))
    \/ \E d, a \in Regs :
        \/ /\ call' = [op |-> "compl", d |-> d, a |-> a]
           /\ Put(d, And(Not(ws[a]), ALL))
        \/ /\ call' = [op |-> "subset", a |-> d, b |-> a]
           /\ Q(And(ws[d], ws[a]) = ws[d])
        \/ /\ call' = [op |-> "superset", a |-> d, b |-> a]
           /\ Q(And(ws[d], ws[a]) = ws[a])
        \/ /\ call' = [op |-> "disjoint", a |-> d, b |-> a]
           /\ Q(IsZero(And(ws[d], ws[a])))
        \/ call' = [op |-> "eq", a |-> d, b |-> a] /\ Q(ws[d] = ws[a])
    \/ \E d, a, b \in Regs, f \in {"or", "and", "sub", "xor"} :
        /\ call' = [op |-> "bin", f |-> f, d |-> d, a |-> a, b |-> b]
        /\ Put(d, CASE f = "or" -> Or(ws[a], ws[b])
                    [] f = "and" -> And(ws[a], ws[b])
                    [] f = "sub" -> AndNot(ws[a], ws[b])
                    [] f = "xor" -> Xor(ws[a], ws[b]))

Stepped(x) == its' = [its EXCEPT ![1] = x[2]] /\ res' = Ok(x[1]) /\ UNCHANGED ws
IterCalls ==
    \/ /\ its = <<>>
       /\ call' = [op |-> "iter", i |-> 1, a |-> 1]
       /\ its' = (1 :> NewIt(ws[1])) /\ res' = Ok(0) /\ UNCHANGED ws
    \/ /\ its # <<>>
       /\ \/ call' = [op |-> "next", i |-> 1] /\ Stepped(NextIt(its[1]))
          \/ call' = [op |-> "next_back", i |-> 1] /\ Stepped(BackIt(its[1]))
          \/ \E n \in 0 .. 3 :
              \/ /\ call' = [op |-> "nth", i |-> 1, n |-> n]
                 /\ Stepped(NthIt(its[1], n))
              \/ /\ call' = [op |-> "nth_back", i |-> 1, n |-> n]
                 /\ Stepped(NthBackIt(its[1], n))
          \/ /\ call' = [op |-> "size_hint", i |-> 1]
             /\ LET n == SizeHintIt(its[1]) IN Q(<<n, n, n>>)

Widths == (1 .. WordBits) \cup {2 * WordBits}
Modes == {"try", "trunc"}
Seqs(n) == [0 .. n - 1 -> SUBSET Bit]
AsSeq(f, n) == [i \in 1 .. n |-> Asc(f[i - 1])]
Back(o) == IF o = <<>> THEN res' = NoneR /\ Same
           ELSE ws' = [ws EXCEPT ![1] = o[1]] /\ UNCHANGED its /\ res' = Ok(0)
ConvCalls ==
    \/ \E w \in Widths :
        \/ /\ call' = [op |-> "to_int", a |-> 1, w |-> w, mode |-> "trunc"]
           /\ Q(Asc(IntTrunc(ws[1], w)))
        \/ /\ call' = [op |-> "to_int", a |-> 1, w |-> w, mode |-> "try"]
           /\ LET o == IntOpt(ws[1], w) IN
              IF o = <<>> THEN res' = NoneR /\ Same ELSE Q(Asc(o[1]))
        \/ \E n \in SUBSET (0 .. w - 1) :
            \/ /\ call' = [op |-> "from_int", d |-> 1, w |-> w, vs |-> Asc(n),
                           mode |-> "trunc"]
               /\ Back(<<And(FromIntTrunc(n), ALL)>>)
            \/ /\ call' = [op |-> "from_int", d |-> 1, w |-> w, vs |-> Asc(n),
                           mode |-> "try"]
               /\ Back(Checked(FromIntOpt(n, w)))
    \/ \E n \in 0 .. NW + 1 :
        \/ /\ call' = [op |-> "to_array", a |-> 1, n |-> n, mode |-> "trunc"]
           /\ Q(AsSeq(ToSlice(ws[1], n), n))
        \/ /\ call' = [op |-> "to_array", a |-> 1, n |-> n, mode |-> "try"]
           /\ LET o == ToSliceOpt(ws[1], n) IN
              IF o = <<>> THEN res' = NoneR /\ Same ELSE Q(AsSeq(o[1], n))
        \/ \E s \in Seqs(n) :
            \/ /\ call' = [op |-> "from_array", d |-> 1, ws |-> AsSeq(s, n),
                           mode |-> "trunc"]
               /\ Back(<<And(FromSlice(s, n), ALL)>>)
            \/ /\ call' = [op |-> "from_array", d |-> 1, ws |-> AsSeq(s, n),
                           mode |-> "try"]
               /\ Back(Checked(FromSliceOpt(s, n)))

WInit == /\ dis \in DS
         /\ ws \in [Regs -> {FromSlice([i \in W0 |-> {b \in Bit : i * WordBits + b \in S}], NW)
                              : S \in SUBSET dis}]
         /\ its = <<>> /\ res = Ok(0) /\ call = [op |-> "none"]
WNext == /\ UNCHANGED dis
         /\ \/ "set" \in Make /\ SetCalls
            \/ "iter" \in Make /\ IterCalls
            \/ "conv" \in Make /\ ConvCalls
WSpec == WInit /\ [][WNext]_wvars
WView == <<dis, ws, its>>

-----------------------------------------------------------------------------
A == INSTANCE Calls WITH
        decl <- [D |-> dis, w |-> 0, kind |-> "none", deny |-> FALSE],
        reg <- [x \in Regs |-> AbsSet(ws[x])],
        it <- [i \in DOMAIN its |-> AbsIt(its[i])],
        ord <- {}, hsh <- <<>>, out <- res
Refines == [][A!Call(call', res')]_wvars
Clean == \A x \in Regs : AbsSet(ws[x]) \subseteq dis
DoneMeansEmpty == \A i \in DOMAIN its : its[i].done => AbsIt(its[i]) = {}
=============================================================================
