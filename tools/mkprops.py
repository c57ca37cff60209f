#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
S='enumset/src/set.rs'; A='enumset/src/repr/array.rs'; P='enumset/src/repr/primitive.rs'; M='enumset/src/macros.rs'; D='enumset_derive/src/lib.rs'; L='enumset/src/lib.rs'; T='enumset/src/traits.rs'
REG={"name":"set value","meaning":"the mathematical set of variants an EnumSet stands for, as bit positions = discriminants","where":S+" EnumSet.__priv_repr"}
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [REG],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or ["public API results"],"hook_needed":None}}
props=[
p("P01","Set algebra is exact for every enum and every pair of sets",
 "For every enum usable with EnumSet and any two sets A and B of it, union, intersection, difference, symmetric difference and complement (as methods, as the operators | & - ^ !, and as |= &= -= ^=) yield exactly the mathematical result over the declared variants. Likewise contains, len, is_empty, is_subset, is_superset and is_disjoint report exactly what holds of the mathematical sets, and empty()/new()/default() and all() are the empty and the full set. None of these operations panics, and none but the compound assignments changes its operands.",
 ["inputs","configurations"],"every enum shape (dense, sparse, out of order, any internal representation) and every pair of its sets",
 "The tests use about a dozen enums and a handful of sets built from the variants A..G; sets that straddle words, high bits of a word, full and co-singleton sets and most pairs are never formed.",
 [S,A,P,D],[("EnumSet::union/intersection/difference/symmetrical_difference/complement/is_*",S),("bit operations per word",A),("bit operations on integers",P)]),
p("P02","Histories of mutations behave as on a mathematical set",
 "After any sequence of insert, remove, insert_all, remove_all, clear, extend (with elements or with sets) and construction by collecting or summing elements or sets, a set contains exactly the elements that the same sequence leaves in a mathematical set, and no other set variable changes. insert returns true exactly when the element was absent before, and remove returns true exactly when it was present. If a source of elements panics, the set keeps what it had and gains at most what the source gave before; what a source would give after its end is not taken.",
 ["histories","configurations"],"every finite sequence of mutating calls on every enum shape",
 "The tests run two fixed mutation sequences over seven variants and check only one return value of insert; no test checks what remove returns.",
 [S,A,P],[("insert/remove/insert_all/remove_all/clear",S),("Extend, FromIterator, Sum",S),("add_bit/remove_bit/has_bit",A+", "+P)]),
p("P03","No safe call ever creates a set holding a non-variant",
 "Whatever sequence of safe calls (set operations, conversions from integers, arrays and slices, deserialization, iteration) produced a set, it holds only declared variants: it equals the set rebuilt from the declared variants it contains, its length is the number of those variants, and every element its iterator yields is a declared variant. In particular complement and all() never set a bit without a variant, in enums with gaps too.",
 ["histories","inputs","configurations"],"every safe call history over every enum shape, with arbitrary (also invalid) numeric and serialized inputs",
 "A set with a stray bit leads to undefined behaviour in the iterator, and only inputs with particular unknown bits create one; the tests try one or two unknown bits per integer width.",
 [S,A,P,D],[("masking with ALL_BITS","%s complement, from_*_truncated, try_from_*"%S),("generated deserialize",D),("enum_from_u32",D)]),
p("P04","Iteration is exact, ordered, double-ended and self-contained",
 "Iterating a set yields each of its elements exactly once, in increasing order of discriminant from the front and decreasing order from the back, under any interleaving of front and back steps (next, next_back, nth, nth_back, and the consuming adaptors); once exhausted it keeps returning None from both ends. At every point size_hint and len report exactly the number of elements not yet yielded. Neither later changes to the set nor advancing a clone of the iterator affects it.",
 ["histories","configurations"],"every set of every enum shape and every interleaving of forward and backward steps, clones and changes of the set",
 "The tests iterate fully forward or fully backward over a few small sets; they never mix the two ends, nor continue after exhaustion, nor clone.",
 [S,A,P],[("EnumSetIter",S),("ArrayIter next/next_back/size_hint",A),("PrimitiveIter",P)],
 [{"name":"remaining elements","meaning":"the subset of the set not yet yielded","where":A+" ArrayIter, "+P+" PrimitiveIter"}]),
p("P05","Converting a set to an integer is lossless or says so",
 "For every set and each of u8, u16, u32, u64, u128 and usize: the fallible conversion returns the integer whose set bits are exactly the discriminants of the elements if all of those fit the integer type, and None otherwise. The panicking conversion returns the same integer, or panics exactly when the fallible one returns None, and the truncating conversion returns the integer with exactly the bits that fit and never panics.",
 ["inputs","configurations"],"every set of every enum shape (narrower, equal or wider than the integer, any internal representation) and each integer type",
 "The tests convert sets of a few low variants; individual high bits, bits at word borders and the boundary discriminants of each type are not enumerated.",
 [S,A,P],[("as_*/try_as_*/as_*_truncated",S),("to_*/to_*_opt",A+", "+P)]),
p("P06","Building a set from an integer accepts exactly the valid masks",
 "For every integer of type u8, u16, u32, u64, u128 or usize: the fallible constructor returns the set of the variants whose bits are set if every set bit is the discriminant of a variant, and None otherwise. The panicking constructor panics exactly when the fallible one returns None and otherwise agrees with it; the truncating one keeps exactly the bits of variants and never panics; the unchecked one agrees with the fallible one on valid masks.",
 ["inputs","configurations"],"every integer of each type, for every enum shape, including integers wider than the set",
 "The tests try one unknown bit per type; an unknown bit in a gap, above the largest variant or beyond the width of the set's own representation can each be mishandled separately.",
 [S,A,P],[("from_*/try_from_*/from_*_truncated/from_*_unchecked",S),("from_*/from_*_opt",A+", "+P)]),
p("P07","Array, slice and Vec conversions follow the array representation",
 "Element i of the array form of a set holds, at bit j, the variant with discriminant 64*i+j: for every set and every length, converting to an array or into a slice writes exactly those bits and zeroes every further element, failing (None, or a panic in the panicking form, leaving the slice as it was) exactly when an element lies beyond the given length; the truncating form drops exactly those elements. Conversely, constructing from an array or slice of any length accepts exactly the inputs all of whose set bits are variants, and the truncating form keeps exactly the bits of variants. The Vec form has the full array form of the set.",
 ["inputs","configurations"],"every set, every buffer content and every length (shorter, equal and longer than the set's own), for every enum shape",
 "The tests use zeroed buffers and values in the first word only; buffers with old content, upper words and lengths between the highest element's word and the set's own length are not covered.",
 [S,A,P],[("as_array*/from_array*/copy_into_slice*/from_slice*/to_vec",S),("to_u64_slice etc.",A+", "+P)]),
p("P08","A declared primitive representation is the memory layout",
 "If an enum declares a primitive representation R, then EnumSet of it has the size, alignment and FFI-safety of R, and for every set the value of R in its memory, and the one as_repr returns, has exactly the bits given by the elements' discriminants. Converting back from R accepts exactly the valid values (None or a panic otherwise), the truncating form keeps exactly the bits of variants, and the unchecked form inverts as_repr. These hold in constant contexts for as_repr.",
 ["inputs","configurations"],"every R in u8..u128, every enum that fits it, every set and every value of R",
 "One test with one enum (u16) and one set converts back and forth; nothing looks at memory, at other representations, at invalid values or at the checked and truncating forms.",
 [S,T,D],[("#[repr(transparent)] EnumSet",S),("as_repr/from_repr/try_from_repr/from_repr_truncated",S),("EnumSetTypeWithRepr impl",D)]),
p("P09","Serialized sets have the declared format and read back unchanged",
 "Every set serializes to the declared format: an integer of the declared (or else the smallest sufficient) type with exactly the discriminants' bits, a sequence of u64 in the array form, a sequence holding each element once, or a map in which exactly the elements are true; sets without a declared format and with a variant of 128 or above use the array form. Where several formats are declared the deprecated options go first, serialize_as_list before serialize_as_map. Deserializing what was serialized gives back an equal set, in self-describing and in binary formats. An error of the serializer is returned.",
 ["inputs","configurations"],"every set, every serialization option combined with every internal representation, and every serde format",
 "The tests round-trip nine sets of five 8-variant enums; formats are checked by three literal JSON strings, and no combination of serialization and internal representation is tried.",
 [D,S],[("generated serialize/deserialize",D),("serde_repr()",D)]),
p("P10","Unknown bits in serialized data are dropped, or rejected if so declared",
 "Deserializing an integer or a sequence of u64 of any length with bits that are no variant's yields the set of the variants whose bits are set, unless the enum is declared to deny unknown bits, in which case it yields an error exactly when there is such a bit. Maps yield exactly the elements mapped to true and lists exactly the elements listed (repeats allowed). Deserialization of any input, malformed ones included, returns a set or an error and never panics; an error of the deserializer is returned, and the sizes it announces change nothing.",
 ["inputs","configurations"],"every serialized input, for every serialization option with and without denial, and every internal representation",
 "One test deserializes one all-ones integer into one denying enum and one into an ignoring one; arrays with unknown bits, over-long arrays and denial combined with array formats are never tried (some of these panicked or did not compile).",
 [D],[("check_unknown, check_extra, convert_array in the generated deserialize",D)]),
p("P11","The bit of each variant is its discriminant, for every declaration",
 "In every accepted enum declaration each variant's bit is its discriminant as Rust assigns it (explicit literals in any base, order and suffix; implicit ones continuing from the previous variant), whatever the enum's own integer representation. all() then holds exactly the declared variants, variant_count() is their number, bit_width() is the largest discriminant plus one (0 without variants), and the enum converted to a set and back through iteration is the same variant.",
 ["programs","configurations"],"every accepted declaration: any number and order of variants, any discriminants, any #[repr] and #[enumset] options",
 "The tests declare about thirty enums, nearly all dense; out-of-order, mixed implicit and explicit, and boundary discriminants are hardly tried.",
 [D,S],[("push_variant, variant_map, enum_into_u32/enum_from_u32",D)],
 [{"name":"current discriminant","meaning":"the discriminant an implicit variant gets","where":D+" EnumSetInfo.cur_discrim"}]),
p("P12","The derive accepts exactly the documented declarations",
 "Every non-generic enum all of whose variants are unit variants, with distinct discriminants that are non-negative integer literals (written there or passed through a macro; or implicit) up to 0xFFFFFFBF and fit the declared memory and serialization representations, compiles (as far as the compiler's memory allows), for every combination of the documented options and whatever the enum (primitive type names aside) and its variants are named (names starting with two underscores aside), also where imported variants shadow names of the prelude (constants and imported variants in lower case aside, which the names in generated code may clash with). Every declaration outside this (structs, variants with fields or parentheses, type parameters, negative, repeated, non-literal or too large discriminants, a representation too small for the largest discriminant, unknown options or option values) is rejected at compile time. The conversions of a declared primitive representation exist exactly for the enums that declare one, and the operators on variants exactly for those that do not decline them with no_ops.",
 ["programs","configurations"],"every enum declaration and every combination of options",
 "The compile-fail tests hold fourteen declarations, mostly not at the boundary, and compile-pass two files; combinations of options are not enumerated (several did not compile).",
 [D],[("push_variant, push_repr, push_serialize_repr, validate, internal_repr, serde_repr",D)]),
p("P13","Compile-time set macros agree with the run-time operations",
 "For any operands (variants or constant sets, any number of them, whatever their names; lower-case names of constants and imported variants aside), the constant union, intersection, difference, symmetric difference and complement macros and the enum_set literal evaluate, in constant contexts and without further imports, to the set the corresponding left-to-right run-time operations give over the same operands. Trailing separators do not matter. The constant functions new(), empty(), all(), variant_count() and bit_width() give in constant contexts what they give at run time.",
 ["inputs","programs","configurations"],"every constant expression built from the macros over every enum shape, including array-backed ones",
 "The tests evaluate one expression per macro with at most three operands, all in the first word; the difference macro is never asserted.",
 [M,D],[("enum_set!, enum_set_union!, ...",M),("__EnumSetConstHelper::const_*",D)]),
p("P14","Equality, ordering and hashing are coherent",
 "Two sets are equal exactly when they have the same elements, however each was obtained; equal sets hash equally; and a set equals a variant (from either side) exactly when that variant is its only element. Comparison is a total order that agrees with equality (antisymmetric, transitive, partial_cmp, <, <=, max and min consistent with cmp), so that sets work as keys of sorted and hashed collections.",
 ["inputs","histories","configurations"],"every pair and triple of sets, however constructed, of every enum shape",
 "The tests put five sets with two or three common elements into a hash set and a tree set; no order law is checked and sets reached in different ways are rarely compared.",
 [S,A,D],[("derived PartialEq/Eq, Hash, PartialOrd, Ord",S),("ArrayRepr derives",A),("generated PartialEq",D)]),
p("P15","Debug and Display show exactly the elements in order",
 "Debug output is EnumSet( followed by the elements' own Debug output in increasing order of discriminant, joined by \" | \", and a closing parenthesis; Display output is the elements' own Display output joined the same way, and empty for the empty set. The caller's format flags are passed on to each element, and an error of the underlying writer is returned.",
 ["inputs","configurations"],"every set of every enum shape, every element rendering (empty and multi-line ones too) and format flag",
 "Two literal strings of three elements each are compared; the empty set, single elements, flags and failing writers are not.",
 [S],[("Debug and Display for EnumSet",S)]),
p("P16","Behaviour does not depend on the memory representation",
 "Enums with the same variants and discriminants that differ only in the declared memory representation (none, any sufficient primitive one, or array) or in the enum's own integer type behave identically under the same sequence of calls: the same elements, results, iteration, conversions to and from integers and arrays, panics and serialized forms. Only the layout, the order relation, the availability of representation conversions and the number of trailing zero words of the Vec form may differ.",
 ["histories","inputs","configurations"],"every call sequence, over every group of enums that differ only in representation",
 "Each test looks at one representation; results for different representations of the same enum are never compared, and u8/u16/u64 representations have almost no tests of their own.",
 [S,A,P,D],[("EnumSetTypeRepr for u8..u128",P),("EnumSetTypeRepr for ArrayRepr",A)]),
p("P17","Operators on bare variants equal those on singleton sets",
 "For every variant v, and every x that is a variant or a set, v | x, v & x, v - x, v ^ x, !v and v == x give what the same operator gives with the set of just v in place of v, and a set combined with a bare variant (by an operator, a compound assignment or comparison) gives what it gives with that variant's singleton set. Variants compare equal exactly when they are the same variant, and only() and conversion from a variant give its singleton set.",
 ["inputs","configurations"],"every variant, every set and every pair of variants of every enum shape",
 "The operators on variants are only used with a few low variants, mostly |; -, ^ and comparison of a variant with a set are almost untested.",
 [D,S],[("generated Sub/BitAnd/BitOr/BitXor/Not/PartialEq",D),("operators taking Into<EnumSet>, PartialEq<T>",S)]),
p("P18","Behaviour does not depend on how the crate is built",
 "The same program gives the same results, panics and memory contents through enumset whether it is built with or without optimization, overflow checks and debug assertions, and with any set of the crate's cargo features (serde, alloc, proc-macro-crate or none), which only add functions: serialization needs serde, and conversion to a Vec needs alloc. A declaration that compiles in one of these builds compiles in all of them.",
 ["configurations","histories","inputs"],"every build configuration, with every call sequence over every enum shape",
 "The tests run without optimization, with overflow checks and debug assertions on, and with two sets of features; the results of different builds are never compared.",
 [S,A,P,D,L],[("code under cfg, debug assertions and arithmetic that may overflow",S+", "+A+", "+P+", "+D)]),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
