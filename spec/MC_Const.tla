------------------------------ MODULE MC_Const ------------------------------
(* What each macro computes, in closed form, for all operands; and every     *)
(* program of constant definitions of bounded length holds variants only.    *)
EXTENDS ConstExpr
CONSTANTS MaxBit, MaxArgs

SeqsOf(S, n) == UNION {[1 .. k -> S] : k \in 1 .. n}
LawFolds ==
    \A s \in SeqsOf(SUBSET D, MaxArgs) :
        /\ ConstValue("union", s) = UNION Range(s)
        /\ ConstValue("literal", s) = UNION Range(s)
        /\ ConstValue("intersection", s) = {x \in D : \A i \in DOMAIN s : x \in s[i]}
        /\ ConstValue("difference", s)
             = s[1] \ UNION {s[i] : i \in (DOMAIN s) \ {1}}
        /\ ConstValue("symmetric_difference", s)
             = {x \in D : Cardinality({i \in DOMAIN s : x \in s[i]}) % 2 = 1}
        /\ \A m \in FoldMacros : Len(s) = 1 => ConstValue(m, s) = s[1]
LawComplement ==
    \A S, T \in SUBSET D :
        /\ ConstValue("complement", <<ConstValue("complement", <<S>>)>>) = S
        /\ ConstValue("difference", <<S, T>>)
             = ConstValue("intersection", <<S, ConstValue("complement", <<T>>)>>)
        /\ ConstValue("complement", <<ConstValue("union", <<S, T>>)>>)
             = ConstValue("intersection", <<ConstValue("complement", <<S>>),
                                            ConstValue("complement", <<T>>)>>)
        /\ ConstValue("literal", <<>>) = {}

(* Programs: constants defined one after the other.                          *)
Operands == {<<"v", v>> : v \in D} \cup {<<"r", r>> : r \in DOMAIN reg}
CInit == /\ decl \in [D : SUBSET (0 .. MaxBit - 1), w : {0}, kind : {"list"}, deny : {FALSE}]
         /\ reg = <<{}, {}>> /\ it = <<>> /\ ord = {} /\ hsh = <<>> /\ out = Ok(Unit)
CNext == \E d \in DOMAIN reg, m \in Macros :
            \E args \in SeqsOf(Operands, IF m = "complement" THEN 1 ELSE 2) :
                ConstDef(d, m, args)
CSpec == CInit /\ [][CNext]_vars
CView == <<decl, reg>>
=============================================================================
