"""Declarations of spec/EnumDecl.tla as Rust text, in many spellings."""
import re
import random

INTS = {"u8": (0, 2 ** 8), "u16": (0, 2 ** 16), "u32": (0, 2 ** 32), "u64": (0, 2 ** 64), "usize": (0, 2 ** 64),
        "i8": (-2 ** 7, 2 ** 7), "i16": (-2 ** 15, 2 ** 15), "i32": (-2 ** 31, 2 ** 31), "i64": (-2 ** 63, 2 ** 63),
        "isize": (-2 ** 63, 2 ** 63), "u128": (0, 2 ** 128), "i128": (-2 ** 127, 2 ** 127)}
TOP = 0xFFFFFFC0
PLAIN = ["Enum", "Color", "Flags", "E"]
# Names the generated code might trip over (not those of primitive types).
PRELUDE = ["Some", "None", "Ok", "Err", "Option", "Result", "Default", "Into", "From", "Iterator", "Send", "Sync", "Clone",
           "Copy", "Eq", "PartialEq", "Vec", "String", "Box", "Drop", "Fn", "Sized"]
ODD = ["Option", "Result", "Some", "None", "Ok", "Err", "EnumSet", "EnumSetType", "Sub", "Not", "BitOr", "PartialEq", "Eq",
       "Clone", "Copy", "Output", "Repr", "ConstHelper", "Error", "Value", "Visitor", "Serializer", "Deserializer",
       "SeqAccess", "SerializeSeq", "SerializeMap", "MapAccess", "S", "D", "T", "O", "A", "R", "K", "Self_", "ArrayRepr", "core", "std", "enumset", "serde", "alloc",
       "r#type", "r#match", "Vec", "Box", "String", "IS_U8", "BIT_WIDTH", "ALL_BITS", "value", "set", "all", "accum", "val",
       "x", "bit", "idx", "helper", "Into", "From", "Default", "Iterator", "Hash", "Debug", "Ord", "É", "名", "snake_case",
       "SCREAMING", "EnumSetTypeWithRepr", "EnumSetTypePrivate", "EnumSetTypeRepr", "Formatter", "main", "e", "i", "self_",
       "other", "ser", "de", "Ordering", "Range", "Infallible", "PhantomData", "Drop", "Send", "Sync", "Sized", "Fn"]
VARIANTS = ["A", "B", "C", "D", "E", "F", "G", "None", "Some", "Ok", "Err", "EnumSet", "r#type", "r#fn", "u8", "u32", "u64",
            "u128", "Self_", "Repr", "ALL_BITS", "BIT_WIDTH", "Enum", "value", "x", "val", "É", "Output", "Error", "all",
            "empty", "new", "len", "contains", "only", "core", "S", "T", "O", "K", "EnumSetType", "i8", "usize", "str", "bool",
            "VARIANT_COUNT", "CONST_HELPER_INSTANCE", "ConstHelper", "const_only", "max", "MAX", "MIN", "Value", "Option"]


def numbers(vs):
    """What Rust would number the variants, for the choice of a type."""
    out, nxt = [], 0
    for v in vs:
        k, n = v["lit"]["k"], v["lit"].get("n", 0)
        if k != "impl":
            nxt = {"int": n, "expr": n, "top": TOP + n, "neg": -n, "huge": 2 ** 32 + n}[k]
        out.append(nxt)
        nxt += 1
    return out


def literal(rng, n, ty, plain):
    if plain:
        return str(n)
    s = rng.choice(["%d", "%d", "0x%x", "0x%X", "0o%o", "0b{:b}", "00%d"])
    s = s.format(n) if "{" in s else s % n
    if rng.random() < 0.3:
        head, body = (s[:2], s[2:]) if s[:2] in ("0x", "0o", "0b") else (s[:1], s[1:])
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(body))
            body = body[:i] + "_" + body[i:]
        s = head + body
    if rng.random() < 0.3 and ty:
        s += rng.choice(["", "_"]) + ty
    return s


def rust_types(nums, empty):
    if empty:
        return [None]
    lo, hi = min(nums), max(nums)
    out = [t for t, (a, b) in INTS.items() if a <= lo and hi < b]
    if -2 ** 31 <= lo and hi < 2 ** 31:
        out.append("C")
    return out + [None, None, None, "Rust"]


class Program:
    """One declaration as a module `dN`, and the function that looks at it."""
    def __init__(self, i, dec, seed, serde=True, plain=False, crate=None, name=None, look=True, rust="?", docs=False):
        self.i, self.dec = i, dec
        d = self.d = dec["d"]
        rng = random.Random("%d/%s/%s" % (seed, i, repr(d)))
        vs = d["vs"]
        nums = numbers(vs)
        flags = list(d["flags"])
        ser = "list" if "serialize_as_list" in flags else "map" if "serialize_as_map" in flags else d["ser"]
        derives_serde = serde and ser in ("list", "map")
        names = ["V%d" % n for n in range(len(vs))]
        style = rng.choice(["mod", "mod", "fn", "macro"])
        if d["generic"] or d["item"] != "enum" or any(v["data"] for v in vs):
            style = "mod"
        if not plain and not derives_serde and rng.random() < 0.5:
            extra = rng.sample(VARIANTS, min(len(vs), len(VARIANTS)))
            names = extra + names[len(extra):]
        if name is None:
            name = "Enum" if plain or (derives_serde and rng.random() < 0.7) else rng.choice(rng.choice([PLAIN, ODD]))
        self.name = name
        # The variants shadow the prelude where the enum is declared.
        self.imported = imported = (not plain and not docs and d["item"] == "enum" and 0 < len(vs) <= len(PRELUDE) and style != "macro"
                                    and name not in PRELUDE and not any(v["lit"]["k"] == "expr" for v in vs) and rng.random() < 0.2)
        if imported:
            names = rng.sample(PRELUDE, len(vs))
            style = "mod"
        ty = rng.choice(rust_types(nums, not vs)) if rust == "?" else rust
        self.rust = ty
        lit_ty = ty if ty in INTS else "isize"
        # attributes
        opts = []
        if d["repr"] != "none":
            opts.append('repr = "%s"' % d["repr"])
        if d["ser"] != "none":
            opts.append('serialize_repr = "%s"' % d["ser"])
        opts += flags
        if crate:
            opts.append('crate_name = "%s"' % crate)
        rng.shuffle(opts)
        attrs = []
        if opts and rng.random() < 0.3:
            attrs += ["#[enumset(%s)]" % o for o in opts]
        elif opts:
            attrs.append("#[enumset(%s%s)]" % (", ".join(opts), rng.choice(["", ","])))
        elif rng.random() < 0.1:
            attrs.append("#[enumset()]")
        if ty and d["item"] == "enum":
            attrs.append("#[repr(%s)]" % ty)
        if rng.random() < 0.2:
            attrs.append("/// Documentation.")
        if rng.random() < 0.1 and vs:
            attrs.append("#[non_exhaustive]")
        rng.shuffle(attrs)
        der = ["::%s::EnumSetType" % (crate or "enumset")]
        if d["supers"]:
            der += rng.sample(["Clone", "Copy", "PartialEq", "Eq"], 4)
        if derives_serde:
            der += ["::serde::Serialize", "::serde::Deserialize"]
        if rng.random() < 0.2:
            der.append("::core::fmt::Debug")
        default = None
        if not plain and not docs and d["item"] == "enum" and not d["generic"] and not any(v["data"] for v in vs):
            if rng.random() < 0.2:
                der += rng.choice([["::core::hash::Hash"], ["::core::cmp::PartialOrd"],
                                   ["::core::cmp::PartialOrd", "::core::cmp::Ord", "::core::hash::Hash"]])
            if vs and rng.random() < 0.1:
                der.append("::core::default::Default")
                default = rng.randrange(len(vs))
        rng.shuffle(der)
        # Prelude traits may be shadowed by the enum's name.
        der = [{"Clone": "::core::clone::Clone", "Copy": "::core::marker::Copy", "PartialEq": "::core::cmp::PartialEq",
                "Eq": "::core::cmp::Eq"}.get(x, x) for x in der]
        if len(der) > 1 and rng.random() < 0.3:
            attrs = ["#[derive(%s)]" % ", ".join(der[:1]), "#[derive(%s)]" % ", ".join(der[1:])] + attrs
        else:
            attrs = ["#[derive(%s)]" % ", ".join(der)] + attrs
        vis = "pub " if imported else rng.choice(["pub ", "pub(crate) ", "", "pub(super) "]) if style == "mod" else rng.choice(["pub ", ""])
        gen = rng.choice(["<const N: usize>", "<'a>", "<T>", "<const N: usize>"]) if d["generic"] else ""
        if d["item"] == "struct":
            item = ["%sstruct %s%s" % (vis, name, rng.choice([";", " { }", "();", "(u8);"]))]
        elif d["item"] == "union":
            item = ["%sunion %s { a: u8, b: i8 }" % (vis, name)]
        else:
            body = []
            gone = rng.randint(0, len(vs)) if vs and not plain and rng.random() < 0.15 else None
            for j, (v, n, num) in enumerate(zip(vs, names, nums)):
                k = v["lit"]["k"]
                s = ""
                if k in ("int", "top", "huge"):
                    s = " = " + literal(rng, num, lit_ty, plain)
                elif k == "neg":
                    s = " = -" + literal(rng, -num, lit_ty, plain)
                elif k == "expr":
                    s = " = " + rng.choice((["b'\\x%02x'" % num] * 2 if lit_ty == "u8" and num < 128 else []) +
                                           (["%s::MIN" % lit_ty] * 2 if lit_ty[0] == "u" and num == 0 else []) +
                                           ["%d + 0" % num, "{ %d }" % num, "ZERO as %s + %d" % (lit_ty, num), "%d | 0" % num,
                                            "%d as %s" % (num, lit_ty), "!!%d" % num])
                data = rng.choice(["(u8)", "{ a: u8 }", "(u8, u8)"]) if v["data"] else ""
                at = rng.choice(["", "", "", "", "/** v */ ", "#[allow(dead_code)] ", "#[deprecated] ", "#[cfg(not(any()))] "])
                if j == default:
                    at += "#[default] "
                if j == gone:
                    # Not there: neither the variant nor its number counts.
                    body.append("#[cfg(any())] %s%s" % (rng.choice([n, "Gone"]), rng.choice(["", " = 0", " = 4000000000"])))
                body.append("%s%s%s%s" % (at, n, data, s))
            text = ", ".join(body) + ("," if body and rng.random() < 0.5 else "")
            if not gen and style != "macro" and rng.random() < 0.1:
                gen = rng.choice(["<>", " where", "<> where", " where u8: ::core::marker::Copy"])
            item = ["%senum %s%s { %s }" % (vis, name, gen, text)]
        decl = attrs + item
        if style == "macro":
            mac = "make%d" % i
            odd = any(v["lit"]["k"] in ("neg", "expr") for v in vs)
            frag = "expr" if odd else rng.choice(["tt", "literal", "expr"])
            head, match, args = [], "", ""
            # The representation as an argument of the macro too.
            if d["repr"] != "none" and rng.random() < 0.5:
                decl = [re.sub(r'([(, ])repr = "\w+",? ?', r"\1", l).replace(", )", ")") if l.startswith("#[enumset(") else l for l in decl]
                head, match, args = ["#[enumset(repr = $r)]"], "$r:literal; ", '"%s";' % d["repr"]
            decl = ["macro_rules! %s { (%s$(#[$m:meta])* $vis:vis enum $name:ident { $($(#[$n:meta])* $v:ident $(= $x:%s)?),* $(,)? }) => {"
                    % (mac, match, frag)]\
                + ["    $(#[$m])* " + " ".join(head) + " $vis enum $name { $($(#[$n])* $v $(= $x)?),* }", "} }",
                   mac + "! {" + args] + decl + ["}"]
        out = ["#[allow(warnings)]", "mod d%d {" % i]
        if any(v["lit"]["k"] == "expr" for v in vs):
            out.append("const ZERO: u8 = 0;")
        run = []
        if look:
            table = ", ".join("(%s::%s, %d, %s::%s as i64)" % (name, n, q[1], name, n)
                              for n, q in zip(names, dec["nums"]))
            disc = "|v__| v__ as i64" if vs else "|v__| match v__ {}"
            run = ["let decl = ::probe::Decl::<%s> { id: %d, line: %s, table: &[%s], disc: %s, has_repr: ::probe::has_repr!(%s), "
                   "has_ops: ::probe::has_ops!(%s) };" % (name, i, raw(self.line()), table, disc, name, name)]
            if docs:
                run.append("::probe::begin(%d, decl.line); ::probe::observe_serde(&decl, \"%s\");" % (i, dec["kind"]))
            else:
                run.append("::probe::observe(&decl);")
        if style == "fn":
            head, tail = rng.choice([("", ""), ("fn inner__<T>() {", "} inner__::<u8>();"), ("let inner__ = || {", "}; inner__();"),
                                     ("struct S__; impl S__ { fn inner__(&self) {", "} } S__.inner__();"),
                                     ("trait T__ { fn inner__(&self) {", "} } impl T__ for u8 {} 0u8.inner__();"),
                                     ("loop {", "break }"), ("const _: () = { fn inner__() {", "} };")])
            if look and head.startswith("const"):
                head, tail = "{", "}"
            out += ["pub fn run() {", head] + decl + run + [tail, "}"]
        elif imported:
            out += ["pub mod inner {"] + decl + ["use self::%s::*;" % name, "}", "use self::inner::%s;" % name, "pub fn run() {"] + run + ["}"]
        else:
            out += decl + ["pub fn run() {"] + run + ["}"]
        out.append("}")
        self.lines = out

    def line(self):
        d = self.dec
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}.get(d["d"]["repr"], 0)
        return '"name":"d%d","D":%s,"w":%d,"kind":"%s","deny":%s,"ops":%s,"nreg":2' % (
            self.i, sorted(n[1] for n in d["nums"]), w, d["kind"],
            "true" if "serialize_deny_unknown" in d["d"]["flags"] else "false", "true" if d["ops"] else "false")


def raw(s):
    return 'r##"%s"##' % s
