------------------------------- MODULE Calls --------------------------------
(* Calls as records: one specification action per kind of public call.  The  *)
(* same records are the lines of recorded traces and of generated behaviours.*)
(*                                                                           *)
(* Call(e, o): the call e is made; o is what is known of its outcome, for    *)
(* calls whose result the specification does not determine: [k, r, set] (set *)
(* is what the destination held afterwards).                                 *)
EXTENDS ConstExpr

SetOf(s) == {x \in Range(s) : x >= 0}
Names(e) == [n \in {p[1] : p \in Range(e.names)} |->
                LET p == CHOOSE p \in Range(e.names) : p[1] = n IN p[2]]
CallA(e, o) ==
    CASE e.op = "load" -> Write(e.d, SetOf(e.vs), Ok(Unit))
      [] e.op = "empty" -> Empty(e.d)
      [] e.op = "all" -> All(e.d)
      [] e.op = "single" -> SingleV(e.d, e.v)
      [] e.op = "copy" -> Copy(e.d, e.a)
      [] e.op = "bin" -> BinOp(e.f, e.d, e.a, e.b)
      [] e.op = "compl" -> Complement(e.d, e.a)
      [] e.op = "contains" -> ContainsV(e.a, e.v)
      [] e.op = "len" -> LengthOf(e.a)
      [] e.op = "is_empty" -> IsEmptyOf(e.a)
      [] e.op = "subset" -> IsSubset(e.a, e.b)
      [] e.op = "superset" -> IsSuperset(e.a, e.b)
      [] e.op = "disjoint" -> IsDisjoint(e.a, e.b)
      [] e.op = "vcount" -> VariantCount
      [] e.op = "bwidth" -> BitWidthOf
      [] e.op = "insert" -> InsertV(e.d, e.v)
      [] e.op = "remove" -> RemoveV(e.d, e.v)
      [] e.op = "insert_all" -> InsertAll(e.d, e.a)
      [] e.op = "remove_all" -> RemoveAll(e.d, e.a)
      [] e.op = "clear" -> Clear(e.d)
      [] e.op = "ext_elems" -> ExtendElems(e.d, e.vs)
      [] e.op = "ext_sets" -> ExtendSets(e.d, e.rs)
      [] e.op = "cut_elems" -> ExtendCut(e.d, Range(e.vs), o.set)
      [] e.op = "cut_sets" -> ExtendCut(e.d, UNION {reg[r] : r \in Range(e.rs)}, o.set)
      [] e.op = "from_elems" -> FromElems(e.d, e.vs)
      [] e.op = "from_sets" -> FromSets(e.d, e.rs)
CallB(e, o) ==
    CASE e.op = "iter" -> NewIter(e.i, e.a)
      [] e.op = "iter_clone" -> IterClone(e.i, e.j)
      [] e.op = "next" -> Next1(e.i)
      [] e.op = "next_back" -> NextBack1(e.i)
      [] e.op = "nth" -> Nth(e.i, e.n)
      [] e.op = "nth_back" -> NthBack(e.i, e.n)
      [] e.op = "size_hint" -> SizeHint(e.i)
      [] e.op = "rest" -> Rest(e.i)
      [] e.op = "rest_back" -> RestBack(e.i)
      [] e.op = "count" -> CountOf(e.i)
      [] e.op = "last" -> LastOf(e.i)
      [] e.op = "binvv" -> BinVV(e.f, e.d, e.v, e.u)
      [] e.op = "binvs" -> BinVS(e.f, e.d, e.v, e.b)
      [] e.op = "binsv" -> BinSV(e.f, e.d, e.a, e.v)
      [] e.op = "disc" -> Only(Ok(e.v))
      [] e.op = "notv" -> NotV(e.d, e.v)
      [] e.op = "eqvv" -> EqVV(e.v, e.u)
      [] e.op = "eqvs" -> EqVS(e.v, e.a)
      [] e.op = "eq" -> Eq(e.a, e.b)
      [] e.op = "cmp" -> o.k = "ok" /\ Cmp(e.a, e.b, o.r)
      [] e.op = "cmp_all" -> CmpAll(e.a, e.b)
      [] e.op = "extremes" -> Extremes(e.a, e.b)
      [] e.op = "hash" -> o.k = "ok" /\ HashOf(e.a, o.r)
      [] e.op = "keys" -> DistinctKeys(e.rs)
      [] e.op = "lookup" -> Lookup(e.a, e.rs)
      [] e.op = "fmt" -> Format(e.a, e.f, Names(e))
      [] e.op = "fmt_lim" -> FormatLimited(e.a, e.f, Names(e), e.n, o.k, o.r)
CallC(e, o) ==
    CASE e.op = "to_int" -> ToInt(e.a, e.w, e.mode)
      [] e.op = "from_int" -> FromInt(e.d, e.w, SetOf(e.vs), e.mode)
      [] e.op = "to_array" -> ToArray(e.a, e.n, e.mode)
      [] e.op = "into_slice" -> IntoSlice(e.a, e.ws, e.mode)
      [] e.op = "from_array" -> FromArray(e.d, e.ws, e.mode)
      [] e.op = "to_vec" -> o.k = "ok" /\ ToVec(e.a, o.r)
      [] e.op = "layout" -> Layout(decl.w)
      [] e.op = "memory" -> Memory(e.a)
      [] e.op = "as_repr" -> AsRepr(e.a)
      [] e.op = "from_repr" -> FromInt(e.d, decl.w, SetOf(e.vs), e.mode)
      [] e.op = "ser" -> o.k = "ok" /\ Serialize(e.a, o.r)
      [] e.op = "de" -> Deserialize(e.d, e.doc)
      [] e.op = "ser_fail" -> SerializeFailing(e.a, o.k, o.r)
      [] e.op = "de_fail" -> DeserializeFailing(e.d, e.doc, o.k)
      [] e.op = "de_place" -> DeserializeInPlace(e.d, e.doc, o.k, o.set)
      [] e.op = "roundtrip" -> RoundTrip(e.d, e.a)
      [] e.op = "const" -> ConstDef(e.d, e.m, e.args)
      [] e.op = "has_repr" -> Only(Ok(IF decl.w > 0 THEN decl.w \div 8 ELSE 0))
      [] e.op = "has_ops" -> Only(Ok(IF decl.ops THEN 1 ELSE 0))
      [] e.op = "de_any" -> DeserializeAny(e.d, o.set, o.k = "ok")

OpsA == {"load", "empty", "all", "single", "copy", "bin", "compl", "contains",
         "len", "is_empty", "subset", "superset", "disjoint", "vcount", "bwidth",
         "insert", "remove", "insert_all", "remove_all", "clear", "ext_elems",
         "ext_sets", "cut_elems", "cut_sets", "from_elems", "from_sets"}
OpsC == {"to_int", "from_int", "to_array", "into_slice", "from_array", "to_vec",
         "layout", "memory", "as_repr", "from_repr", "ser", "de", "roundtrip",
         "ser_fail", "de_fail", "de_place", "de_any", "const", "has_repr", "has_ops"}
Call(e, o) == IF e.op \in OpsA THEN CallA(e, o)
           ELSE IF e.op \in OpsC THEN CallC(e, o) ELSE CallB(e, o)
=============================================================================
