#!/usr/bin/env python3
"""The enums the harness is compiled with, and their Rust source.

A shape is a declaration together with what the specification says about it:
the discriminants of its variants, the serialization format in force and the
width of its declared representation.  Shapes carry tags by which the checks
choose them; shapes of one group have the same variants and discriminants.
"""
import random

PRIM = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}


class Shape:
    serde_derive = "#[derive(serde::Serialize, serde::Deserialize)]"

    def __init__(self, variants, repr=None, ser=None, deny=False, rust=None,
                 no_ops=False, no_super=False, group="", tags=(), names=None, attrs_split=False, shown=None, legacy=False):
        # variants: list of (literal text or None, discriminant)
        self.variants = variants
        self.repr, self.ser, self.deny, self.rust = repr, ser, deny, rust
        self.no_ops, self.no_super = no_ops, no_super
        self.group, self.tags = group, tuple(tags)
        self.names = names or ["V%d" % i for i in range(len(variants))]
        self.attrs_split = attrs_split
        self.legacy = legacy
        self.shown = shown or [n[2:] if n.startswith("r#") else n for n in self.names]
        self.id = None

    @property
    def D(self):
        return sorted(d for _, d in self.variants)

    @property
    def width(self):
        return PRIM.get(self.repr, 0)

    @property
    def kind(self):
        if self.ser:
            return self.ser
        w = self.D[-1] + 1 if self.variants else 0
        for k, n in PRIM.items():
            if w <= n:
                return k
        return "array"

    @property
    def label(self):
        d = self.D
        if len(d) > 6:
            ds = "%d..%d/%d" % (d[0], d[-1], len(d))
        else:
            ds = ",".join(map(str, d))
        o = [x for x in (self.repr and "repr=" + self.repr, self.ser and "ser=" + self.ser, self.legacy and "legacy",
                         self.deny and "deny", self.rust and "rust=" + self.rust,
                         self.no_ops and "no_ops", self.no_super and "no_super") if x]
        return "%s{%s}%s" % (self.id, ds, "(" + ",".join(o) + ")" if o else "")

    def source(self):
        opts = []
        if self.repr:
            opts.append('repr = "%s"' % self.repr)
        if self.ser and self.legacy:
            opts.append("serialize_as_" + self.ser)
        elif self.ser:
            opts.append('serialize_repr = "%s"' % self.ser)
        if self.deny:
            opts.append("serialize_deny_unknown")
        if self.no_ops:
            opts.append("no_ops")
        if self.no_super:
            opts.append("no_super_impls")
        der = ["enumset::EnumSetType"]
        if self.no_super:
            der = ["Clone", "Copy", "PartialEq", "Eq"] + der
        out = ["#[derive(%s)]" % ", ".join(der)]
        if self.kind in ("list", "map"):
            out.append(self.serde_derive)
        if opts and self.attrs_split:
            out += ["#[enumset(%s)]" % o for o in opts]
        elif opts:
            out.append("#[enumset(%s)]" % ", ".join(opts))
        if self.rust:
            out.append("#[repr(%s)]" % self.rust)
        out.append("#[allow(dead_code)]")
        out.append("pub enum %s {" % self.id)
        for n, (lit, _) in zip(self.names, self.variants):
            out.append("    %s%s," % (n, "" if lit is None else " = " + lit))
        out.append("}")
        out.append("shape!(%s, %s, %s, [%s], %d, %s, %s, %s, %s, [%s]);" % (
            self.id, rs(self.label), rs(self.group), ", ".join(rs(t) for t in self.tags),
            self.width, rs(self.kind), "true" if self.deny else "false",
            "no" if self.no_ops else "yes", self.repr if self.width else "no",
            ", ".join("%s %d %s" % (n, d, rs(x))
                      for n, (_, d), x in zip(self.names, self.variants, self.shown))))
        return "\n".join(out)


def rs(s):
    return '"%s"' % s


def explicit(D, **kw):
    return Shape([(str(d), d) for d in D], **kw)


def dense(n, **kw):
    return Shape([(None, d) for d in range(n)], **kw)


def mixed(spec, **kw):
    """Numbers are explicit discriminants, None continues from the last."""
    out, nxt = [], 0
    for s in spec:
        lit = None
        if s is not None:
            lit, nxt = (s, int(s.replace("_", "").rstrip("uisze"), 0)) if isinstance(s, str) else (str(s), s)
        out.append((lit, nxt))
        nxt += 1
    return Shape(out, **kw)


def base_shapes(seed):
    S = []
    rng = random.Random(seed * 7919 + 17)
    for n in (1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 193, 257):
        S.append(dense(n, tags=("core", "dense")))
    sparse = [[3], [63], [64], [127], [128], [6, 7], [7, 8], [14, 15], [15, 16], [30, 31], [31, 32],
              [0, 62, 63], [63, 64, 65], [0, 64, 128], [126, 127], [127, 128], [10, 20, 30, 127],
              [1, 5, 200], [64, 128, 192], [191, 192, 255, 256], [1000],
              [3, 60, 100, 130, 190, 250, 310], list(range(0, 128, 2)), list(range(1, 128, 2)),
              [x for x in range(64) if x != 31], [x for x in range(130) if x not in (0, 64, 127)],
              list(range(100, 164)), list(range(60, 70))]
    for D in sparse:
        S.append(explicit(D, tags=("core", "sparse")))
    S.append(mixed([5, None, 0, None, 64, None, 63, 130, None], tags=("core", "order")))
    S.append(mixed([200, 100, None, 3, None, None, 64, 0], tags=("core", "order")))
    S.append(mixed([31, 30, 29, 7, 0, 1], tags=("core", "order")))
    S.append(mixed([9, None, None, 2, None], tags=("core", "order")))
    S.append(explicit([0, 5000, 16389], tags=("core", "huge")))
    # The same variants in every memory representation.
    groups = [([0, 1, 2], ["u8", "u16", "u32", "u64", "u128", "array"]),
              ([0, 7], ["u8", "u16", "u32", "u64", "u128", "array"]),
              (list(range(8)), ["u8", "u32", "array"]),
              ([1, 4, 15], ["u16", "u32", "u64", "u128", "array"]),
              (list(range(16)), ["u16", "u64", "array"]),
              ([3, 17, 31], ["u32", "u64", "u128", "array"]),
              (list(range(32)), ["u32", "u128", "array"]),
              ([0, 32, 63], ["u64", "u128", "array"]),
              (list(range(64)), ["u64", "u128", "array"]),
              ([0, 64, 127], ["u128", "array"]),
              (list(range(128)), ["u128", "array"]),
              ([1, 63, 64, 65, 126], ["u128", "array"])]
    for n, (D, reprs) in enumerate(groups):
        g = "g%d" % n
        for r in [None] + reprs:
            t = ["group"]
            if r in PRIM:
                t.append("repr")
            S.append(explicit(D, repr=r, group=g, tags=t))
    for n, D in enumerate([[0, 1, 100], [0, 128, 300]]):
        for r in [None, "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "C"]:
            if r in ("u8", "i8") and D[-1] > 200:
                continue
            S.append(explicit(D, rust=r, group="r%d" % n, tags=("group", "rust")))
    S.append(explicit([0, 1, 100], rust="u8", repr="u128", group="r0", tags=("group", "rust", "repr")))
    S.append(explicit([0, 1, 100], rust="i8", repr="array", group="r0", tags=("group", "rust")))
    S.append(explicit([0, 128, 300], rust="u32", repr="array", group="r1", tags=("group", "rust")))
    # More declared representations, with gaps and full.
    for D, r in [([0], "u8"), ([7], "u8"), ([0, 2, 5], "u8"), ([8, 15], "u16"), ([0, 31], "u32"),
                 ([33, 63], "u64"), ([0, 100], "u128"), ([5], "u64"), ([127], "u128"),
                 ([64], "u128"), (list(range(1, 128, 3)), "u128"), (list(range(3, 64, 2)), "u64")]:
        S.append(explicit(D, repr=r, tags=("repr",)))
    S.append(dense(0, repr="u8", tags=("repr", "none")))
    S.append(dense(0, tags=("none",)))
    S.append(dense(0, repr="array", tags=("none",)))
    # Derive options.
    S.append(explicit([0, 3, 9], no_ops=True, tags=("core", "noops")))
    S.append(explicit([0, 64, 130], no_ops=True, tags=("core", "noops")))
    S.append(explicit([0, 4, 31], no_super=True, tags=("core", "nosuper")))
    S.append(explicit([1, 64, 129], no_super=True, repr="array", tags=("core", "nosuper")))
    # Elements that are shown as nothing, as several lines, as separators.
    for D in ([0, 1, 2, 3, 4], [3, 64, 65, 130, 200]):
        S.append(explicit(D, shown=["", "a\\nb\\n", " | ", "EnumSet(", "{} ,"], tags=("core", "shown")))
        S.append(explicit(D[:2], shown=["", ""], repr="u128" if D[0] else "u8", tags=("core", "shown")))
    # A few random ones.
    for n in range(4):
        top = rng.choice([8, 20, 64, 90, 128, 200, 400])
        k = rng.randint(1, min(top, 24))
        D = rng.sample(range(top), k)
        S.append(explicit(D, tags=("core", "random")))
    return S


def ser_shapes(seed):
    S = []
    rng = random.Random(seed * 104729 + 5)
    t = ("ser",)
    for D in ([0, 1, 2, 3, 4], [1, 3, 6]):
        for ser in (None, "u8", "u16", "u32", "u64", "u128", "array", "list", "map"):
            for deny in (False, True):
                S.append(explicit(D, ser=ser, deny=deny, tags=t))
    for D, r, sers in [([0, 7], "array", ["u8", "u64", "array"]), ([0, 15], "u128", [None, "u16"]),
                       ([2, 9], None, [None, "array", "list"]), ([5, 31], None, [None, "u32", "u64", "array"]),
                       ([5, 31], "array", [None, "u128"]),
                       (list(range(64)), None, [None, "u64", "array"]), ([0, 40, 63], "u64", [None, "u128"]),
                       ([0, 64], None, [None, "u128", "array", "list", "map"]),
                       ([0, 64, 127], "u128", [None, "array"]),
                       (list(range(128)), None, [None]), (list(range(128)), "u128", [None]),
                       ([0, 128], None, [None, "list"]), ([3, 70, 140, 200], None, [None, "array", "map"]),
                       (list(range(130)), None, [None]), ([63, 64, 191, 192], None, [None]),
                       ([64, 128, 250], None, [None])]:
        for ser in sers:
            for deny in (False, True):
                S.append(explicit(D, repr=r, ser=ser, deny=deny, tags=t))
    S.append(mixed([5, None, 0, 64, 63], ser="list", tags=t))
    S.append(mixed([70, None, 0, 200, 63], ser="map", tags=t))
    S.append(Shape([(None, 0), (None, 1), ("9", 9)], ser="list", names=["r#type", "r#fn", "Other"], tags=t))
    S.append(Shape([(None, 0), (None, 1), ("9", 9)], ser="map", names=["r#type", "r#fn", "Other"], tags=t))
    S.append(explicit([0, 2], ser="array", no_ops=True, tags=t))
    S.append(explicit([0, 2, 77], ser="list", no_ops=True, tags=t))
    S.append(explicit([0, 2, 77], ser="list", legacy=True, tags=t))
    S.append(explicit([0, 2, 7], ser="map", legacy=True, deny=True, tags=t))
    S.append(dense(0, ser="u8", tags=t))
    S.append(dense(0, ser="array", tags=t))
    S.append(explicit([1, 2, 300], ser="array", deny=True, attrs_split=True, tags=t))
    for n in range(3):
        D = rng.sample(range(rng.choice([8, 60, 128, 250])), rng.randint(2, 7))
        S.append(explicit(D, deny=bool(n % 2), repr=rng.choice([None, "array"]), tags=t))
    return S


def tlc_shapes(K, reprs=True):
    """Enums of exactly K variants, for the calls generated by TLC."""
    S = []
    t = ("replay%d" % K,)
    place = {
        3: [[0, 1, 2], [5, 6, 7], [7, 8, 9], [0, 15, 16], [30, 31, 32], [0, 31, 63], [62, 63, 64],
            [63, 64, 65], [0, 64, 128], [126, 127, 128], [64, 65, 127], [100, 200, 300], [191, 192, 193]],
        5: [[0, 1, 2, 3, 4], [3, 4, 5, 6, 7], [0, 7, 8, 15, 16], [0, 31, 32, 62, 63],
            [0, 63, 64, 127, 128], [62, 63, 64, 65, 66], [64, 70, 130, 191, 192], [1, 2, 300, 301, 400],
            [60, 61, 124, 188, 252], [0, 1, 126, 127, 128]],
    }[K]
    for D in place:
        S.append(explicit(D, tags=t))
    if reprs:
        for D, r in [(place[0], "u8"), (place[0], "u16"), (place[0], "u32"), (place[0], "u64"),
                     (place[0], "u128"), (place[0], "array"), (place[1], "array"),
                     ([0, 64, 127, 1, 63][:K], "u128"), ([126, 127, 63, 62, 64][:K], "u128")]:
            S.append(explicit(D, repr=r, tags=t))
    return S


def number(shapes):
    for i, s in enumerate(shapes):
        if s.id is None:
            s.id = "S%d" % i
    return shapes


def random_shapes(seed, n):
    """Further enums, for the thorough tier: any size, gaps, options."""
    rng = random.Random(seed * 31337 + 11)
    S = []
    for _ in range(n):
        top = rng.choice([4, 8, 9, 16, 17, 32, 33, 64, 65, 66, 128, 129, 192, 193, 256, 300, 700])
        k = rng.choice([1, 2, 3, 4, 5, 7, 12, 30, 64, top])
        D = rng.sample(range(top), min(k, top))
        if rng.random() < 0.4:
            edges = [x for b in (8, 16, 32, 64, 128, 192, 256) for x in (b - 1, b) if x < top]
            D = list(dict.fromkeys(D + rng.sample(edges, min(len(edges), 3))))
        if rng.random() < 0.3:
            D.sort()
        repr = rng.choice([None, None, "array"] + [r for r, w in PRIM.items() if max(D) < w])
        kind = rng.choice([None, None, "array", "list", "map"] + [r for r, w in PRIM.items() if max(D) < w])
        vs, prev = [], -1
        for d in D:
            vs.append((None if d == prev + 1 and rng.random() < 0.5 else str(d), d))
            prev = d
        t = ["core", "random"] + (["repr"] if repr in PRIM else []) + ["ser"]
        S.append(Shape(vs, repr=repr, ser=kind, deny=rng.random() < 0.4, tags=t,
                       no_ops=rng.random() < 0.1, attrs_split=rng.random() < 0.2))
    for g in range(n // 12):
        top = rng.choice([8, 16, 32, 64, 128])
        D = rng.sample(range(top), rng.randint(1, min(top, 20)))
        if top - 1 not in D:
            D.append(top - 1)
        for r in [None, "array"] + [r for r, w in PRIM.items() if max(D) < w]:
            S.append(explicit(D, repr=r, group="x%d" % g, tags=("group",) + (("repr",) if r in PRIM else ())))
    return S


def all_shapes(seed, tier):
    S = base_shapes(seed) + ser_shapes(seed) + tlc_shapes(3) + tlc_shapes(5)
    if tier == "thorough":
        S += random_shapes(seed, 60)
    return number(S)


BINS = 8


def lite_shapes(shapes, tiny=False):
    """A cross-section, for builds in other configurations (tiny: for slow builds)."""
    dense_n = (1, 8, 9, 32, 33, 64, 65, 129)
    sparse = [[3], [63], [127], [0, 62, 63], [31, 32], [63, 64, 65], [0, 64, 128], [191, 192, 255, 256], [1, 5, 200],
              [10, 20, 30, 127], list(range(0, 128, 2))]
    reprs = [([7], "u8"), ([8, 15], "u16"), ([33, 63], "u64"), ([127], "u128"), ([0, 31], "u32")]
    groups = {"g0": None, "g1": ("u8", "array"), "g7": ("u64", "array"), "g9": None, "g11": ("array",),
              "r0": ("i8", "u16", "C"), "r1": ("u16", "i128")}
    sers = (None, "u8", "u64", "u128", "array", "list", "map")
    serD = ([0, 64], [3, 70, 140, 200], [5, 31])
    if tiny:
        dense_n = (1, 8, 33, 64, 65, 129)
        sparse = sparse[1:2] + sparse[5:9]
        reprs = reprs[:2] + reprs[3:4]
        groups = {"g1": None, "g7": ("u64", "array"), "g9": None, "r0": ("i8", "C"), "r1": ("u16",)}
        sers, serD = ("u8", "list", "map"), ([0, 64],)
    out, orders, noops, shown, last = [], 0, 0, 0, ""
    for s in shapes:
        D, keep = s.D, False
        if "dense" in s.tags:
            keep = len(D) in dense_n
        elif "sparse" in s.tags:
            keep = D in sparse
        elif "order" in s.tags:
            orders += 1
            keep = orders <= 2
        elif s.group in groups and not s.tags[0].startswith("replay"):
            want = groups[s.group]
            keep = want is None or s.repr in want or s.rust in want or not (s.repr or s.rust)
        elif "noops" in s.tags or "nosuper" in s.tags:
            noops += 1
            keep = noops % 2 == 0
        elif "shown" in s.tags:
            shown += 1
            keep = shown in (1, 4)
        elif "none" in s.tags:
            keep = s.repr is None
        elif s.tags == ("repr",):
            keep = (D, s.repr) in reprs
        elif "ser" in s.tags and "random" not in s.tags:
            keep = D == [0, 1, 2, 3, 4] and s.ser in sers and (s.deny or not tiny) or D in serD and s.deny
        if keep:
            out.append(s)
    return out


def write(dirname, shapes, prefix="c"):
    """Distributes the shapes over the programs gen/c0.rs .. c7.rs (or p0.rs ..)."""
    number(shapes)
    bins = [[] for _ in range(BINS)]
    cost = [0] * BINS
    units = {}
    for s in shapes:
        units.setdefault(s.group or s.id, []).append(s)
    for u in sorted(units.values(), key=lambda u: -sum(len(s.variants) + 20 for s in u)):
        i = cost.index(min(cost))
        bins[i] += u
        cost[i] += sum(len(s.variants) + 20 for s in u)
    for i, b in enumerate(bins):
        out = ["// Generated by tools/shapes.py.", "use conform::mach::*;", "use conform::shape;"]
        out += [s.source().replace(Shape.serde_derive, '#[cfg_attr(feature = "ser", %s)]' % Shape.serde_derive[2:-1]) for s in b]
        out.append("fn machines() -> Vec<Box<dyn Machine>> {\n    vec![\n%s    ]\n}" % "".join(
            "        Mach::<%s>::boxed(),\n" % s.id for s in b))
        out.append("fn main() {\n    conform::main(machines)\n}")
        text = "\n".join(out) + "\n"
        path = "%s/%s%d.rs" % (dirname, prefix, i)
        try:
            with open(path) as f:
                if f.read() == text:
                    continue
        except FileNotFoundError:
            pass
        with open(path, "w") as f:
            f.write(text)


if __name__ == "__main__":
    import sys
    b, s = base_shapes(1), ser_shapes(1)
    print([x.label for x in lite_shapes(all_shapes(1, "quick"))])
    print(len(lite_shapes(all_shapes(1, "quick"))), len(lite_shapes(all_shapes(1, "quick"), True)), len(b), len(s), len(tlc_shapes(3)), len(tlc_shapes(5)))
