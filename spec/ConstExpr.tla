------------------------------ MODULE ConstExpr -----------------------------
(* The compile-time macros.  A constant expression is a macro over operands, *)
(* each a variant or a constant set defined earlier; its value is what the   *)
(* run-time operation gives, applied from left to right.                     *)
EXTENDS Serde

MacroOp(m) == CASE m \in {"union", "literal"} -> "or" [] m = "intersection" -> "and"
                [] m = "difference" -> "sub" [] m = "symmetric_difference" -> "xor"
FoldMacros == {"union", "intersection", "difference", "symmetric_difference"}
Macros == FoldMacros \cup {"complement", "literal"}

(* Values of operands to the value of the expression.                        *)
ConstValue(m, s) ==
    CASE m = "literal" /\ s = <<>> -> {}
      [] m = "complement" -> D \ s[1]
      [] OTHER ->
            LET f[n \in 1 .. Len(s)] ==
                    IF n = 1 THEN s[1] ELSE Bin(MacroOp(m), f[n - 1], s[n])
            IN f[Len(s)]
Arity(m, n) == CASE m = "literal" -> n >= 0 [] m = "complement" -> n = 1
                 [] OTHER -> n >= 1

(* Operands <<"v", variant>> or <<"r", variable>>.                           *)
Operand(x) == IF x[1] = "v" THEN {x[2]} ELSE reg[x[2]]
ConstDef(d, m, args) ==
    /\ Arity(m, Len(args))
    /\ Write(d, ConstValue(m, [i \in DOMAIN args |-> Operand(args[i])]), Ok(Unit))
=============================================================================
