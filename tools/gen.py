"""Random type expressions and random declarations, as Rust text with their true number of values."""
import random
import re

import core

BITS = core.BITS
MAX = 2 ** BITS - 1


class T:
    """A type: its Rust text, number of values, whether std gives it Ord, and the product of its
    non-empty parts (what a left-to-right product may reach before an empty part makes it zero)."""

    def __init__(self, s, n, ord=True, peak=None):
        self.s, self.n, self.ord = s, n, ord
        self.peak = max(peak or 0, n, 1)

    def __repr__(self):
        return self.s


NZ = {"NonZero%s%d" % (s, b): 2**b - 1 for b in (8, 16, 32, 64) for s in "UI" if b <= BITS}
NZ.update({"NonZeroUsize": MAX, "NonZeroIsize": MAX})
LEAVES = [T("bool", 2), T("()", 1), T("std::cmp::Ordering", 3), T("u8", 256), T("i8", 256), T("u16", 65536), T("i16", 65536)]
LEAVES += [T("u32", 2**32), T("i32", 2**32)] if BITS > 32 else []
LEAVES += [T("char", 0x110000 - 0x800), T("std::convert::Infallible", 0)]
LEAVES += [T("std::num::" + k, v) for k, v in NZ.items()]
SMALL = [t for t in LEAVES if t.n <= 256]


def option(a):
    return T("std::option::Option<%s>" % a, a.n + 1, a.ord, max(a.peak, a.n + 1))


def result(a, b):
    return T("std::result::Result<%s, %s>" % (a, b), a.n + b.n, a.ord and b.ord, max(a.peak, b.peak, a.n + b.n))


def either(a, b):
    return T("either::Either<%s, %s>" % (a, b), a.n + b.n, a.ord and b.ord, max(a.peak, b.peak, a.n + b.n))


def boxed(a):
    return T("std::boxed::Box<%s>" % a, a.n, a.ord, a.peak)


def array(a, k):
    return T("[%s; %d]" % (a, k), a.n ** k, a.ord, max(a.peak, max(a.n, 1) ** k))


def prod(ts):
    p = 1
    for t in ts:
        p *= t.n
    return p


def peak(ts):
    p = 1
    for t in ts:
        p *= max(t.n, 1)
    return max([p] + [t.peak for t in ts])


def tuple_(ts):
    ts = list(ts)
    return T("(" + ", ".join(t.s for t in ts) + ("," if len(ts) == 1 else "") + ")", prod(ts), len(ts) <= 12 and all(t.ord for t in ts), peak(ts))


def leaf(r, budget):
    for _ in range(50):
        t = r.choice(LEAVES if r.random() < 0.5 else SMALL)
        if t.n <= budget and not (t.n == 0 and r.random() < 0.6):
            return t
    return r.choice([LEAVES[0] if budget >= 2 else LEAVES[1], LEAVES[1]])


def gen(r, budget=MAX, depth=3):
    """A type with at most `budget` values (peak included)."""
    for _ in range(60):
        k = r.random()
        if depth == 0 or k < 0.2:
            t = leaf(r, budget)
        elif k < 0.32:
            t = option(gen(r, max(budget - 1, 1), depth - 1))
        elif k < 0.46:
            a = gen(r, max(budget // 2, 1), depth - 1)
            b = gen(r, max(budget - a.n, 1), depth - 1)
            if r.random() < 0.5:
                a, b = b, a
            t = (result if r.random() < 0.5 else either)(a, b)
        elif k < 0.52:
            t = boxed(gen(r, budget, depth - 1))
        elif k < 0.70:
            n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
            b = budget if n == 0 else int(budget ** (1.0 / n) * (1 + 1e-9)) + 1
            t = array(gen(r, max(min(b, budget), 1), depth - 1), n)
        else:
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16])
            left, ts = budget, []
            for i in range(n):
                share = r.random() < 0.3
                b = left if share else int(max(left, 1) ** (1.0 / (n - i))) + 1
                x = gen(r, max(min(b, left), 1), max(depth - 1, 0) if n < 5 else 0)
                ts.append(x)
                left //= max(x.n, 1)
            r.shuffle(ts)
            t = tuple_(ts)
        if t.peak <= budget:
            return t
    return leaf(r, budget)


def compact(n):
    """A type with exactly n values, of bounded depth."""
    for t in LEAVES:
        if t.n == n:
            return t
    for bits, t in [(t.n.bit_length() - 1, t) for t in reversed(LEAVES) if t.s in ("u32", "u16", "u8")]:
        if n >> bits:
            hi, lo = tuple_([compact(n >> bits), t]), n & ((1 << bits) - 1)
            return either(hi, compact(lo)) if lo else hi
    k = n.bit_length() - 1
    a = array(LEAVES[0], k)
    return result(a, compact(n - (1 << k))) if n != 1 << k else a


def exact(r, n, depth=5):
    """A type with exactly n values, by random decomposition."""
    c = [t for t in LEAVES if t.n == n]
    if c and (depth == 0 or r.random() < 0.7):
        return r.choice(c)
    if depth == 0:
        return compact(n)
    k = r.random()
    if n >= 2 and k < 0.35:
        for p in r.sample([2, 3, 5, 7, 15, 17, 255, 256, 257, 641, 65535, 65536, 65537], 13):
            if n % p == 0 and p < n:
                t = tuple_(r.sample([exact(r, p, depth - 1), exact(r, n // p, depth - 1)], 2))
                if t.peak <= MAX:
                    return t
    if n >= 1 and k < 0.55:
        return option(exact(r, n - 1, depth - 1))
    cut = r.choice([x for x in (0, 1, 2, 3, 255, 256, 65535, 65536, 2**32 - 1, 2**32, n // 2, n) if x <= n])
    ab = [exact(r, cut, depth - 1), exact(r, n - cut, depth - 1)]
    r.shuffle(ab)
    return (result if r.random() < 0.5 else either)(*ab)


# ---------------------------------------------------------------- declarations

FIELD_NAMES = ["x", "y", "z", "a", "b", "c", "rem", "ordinal", "r#type", "r#fn", "r#match", "value", "size", "f0", "f1", "self_", "_0",
               "ORDINAL_SIZE", "X", "i", "n", "none", "r#struct", "ok", "len", "count", "unwrap", "usize_", "index", "item", "r#try", "result",
               "_check_overflow", "_ignore", "__x", "from_ordinal", "all_values", "key", "T", "r#impl", "t", "e", "v", "ordinal_map", "std"]
VARIANT_NAMES = ["A", "B", "C", "D", "E", "None", "Some", "Ok", "Err", "Ordinal", "Option", "ORDINAL_SIZE", "r#type", "r#Fn", "lower", "r#loop",
                 "X1", "Y", "Z", "Self_", "Vec", "Unit", "U", "W", "V9", "Q", "r#dyn", "Usize", "r#enum", "T", "Result", "Ordering", "u"]
CONST_NAMES = ["x", "y", "rem", "ordinal", "f0", "f1", "X", "i", "value", "n", "a", "b"]


class Body:
    """Fields of a struct or variant: shape unit/tuple/record; list of (name, type index text, concrete T per instantiation)."""

    def __init__(self, shape, fields):
        self.shape, self.fields = shape, fields


class Decl:
    def __init__(self):
        self.enum = False
        self.bodies = []  # (variant name or None, Body, discriminant or None)
        self.params = []  # (kind, name, bound text, concrete text)
        self.where_ = []
        self.attrs = []
        self.consts = []
        self.glob = False
        self.macro = None
        self.reprs = ""
        self.discr = False
        self.std_ord = True
        self.name = "S"
        self.cfg_variants = []
        self.vis = "pub "

    def counts(self):
        return [prod([f[2] for f in b.fields]) for _, b, _ in self.bodies]

    def n(self):
        return sum(self.counts())

    def peak(self):
        return max([sum(self.counts())] + [peak([f[2] for f in b.fields]) for _, b, _ in self.bodies])


def distinct_names(r, pool, k, prefix):
    p = r.sample(pool, min(k, len(pool))) if r.random() < 0.75 else []
    out, used = [], set()
    for i in range(k):
        n = p[i] if i < len(p) else "%s%d" % (prefix, i)
        key = n.replace("r#", "")
        while key in used:
            n = key = "%s%d_" % (prefix, i) + str(len(used))
        used.add(key)
        out.append(n)
    return out


def gen_decl(r, idx, wild=True):
    d = Decl()
    d.name = "S%d" % idx
    style = r.random()
    big = r.random()
    # Kinds of size: small mostly, so that everything is covered; some large.
    budget = min(MAX, r.choice([6, 30, 300, 300, 5000, 2**20, 2**33, MAX]))
    generic = r.random() < 0.45
    inst = []  # (param text, concrete T)
    if generic:
        for k in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(["type", "type", "type", "const", "life", "assoc", "opt"])
            nm = "T%d" % k if r.random() < 0.7 else r.choice(["U", "K", "V", "A", "B"]) + str(k)
            c = gen(r, min(budget, r.choice([3, 20, 300])), 1)
            if kind == "type":
                d.params.append(("type", nm, r.choice(["inline", "where", "both"]), c.s))
                inst.append((nm, c))
            elif kind == "const":
                v = r.choice([0, 1, 2, 3])
                nm = "N%d" % k
                base = leaf(r, 6)
                d.params.append(("const", nm, "", str(v)))
                inst.append(("[%s; %s]" % (base.s, nm), array(base, v)))
            elif kind == "life":
                nm = "'l%d" % k
                d.params.append(("life", nm, "", "'static"))
                inst.append(("crate::Lt<%s>" % nm, T("crate::Lt<'static>", 1)))
            elif kind == "assoc":
                d.params.append(("assoc", nm, "", "std::vec::IntoIter<%s>" % c.s))
                inst.append(("<%s as std::iter::Iterator>::Item" % nm if r.random() < 0.5 else "%s::Item" % nm, c))
                d.std_ord = False
            else:
                d.params.append(("opt", nm, "", c.s))
                inst.append(("std::option::Option<%s>" % nm, option(c)))
        order = {"life": 0, "type": 1, "assoc": 1, "opt": 1, "const": 2}
        d.params.sort(key=lambda p: order[p[0]])

    def field_type(limit, depth=1):
        if inst and r.random() < 0.5:
            t = r.choice(inst)
            w = r.random()
            if w < 0.6:
                c = t
            elif w < 0.75:
                c = ("std::option::Option<%s>" % t[0], option(t[1]))
            elif w < 0.85:
                c = ("std::boxed::Box<%s>" % t[0], boxed(t[1]))
            else:
                c = ("(%s, bool)" % t[0], tuple_([t[1], LEAVES[0]]))
            if c[1].peak <= limit:
                return c
        c = gen(r, limit, depth)
        return (c.s, c)

    def body(limit, allow_unit=True):
        shape = r.choice(["unit", "tuple", "tuple", "record", "record"])
        if shape == "unit":
            return Body("unit", [])
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8]) if r.random() < 0.95 else r.choice([17, 20, 40])
        fields, left = [], limit
        names = distinct_names(r, FIELD_NAMES, k, "g")
        for i in range(k):
            b = max(1, min(left, int(left ** (1.0 / (k - i))) + 1)) if r.random() < 0.7 else max(left, 1)
            s, c = field_type(b, 1 if k < 6 else 0)
            if c.n == 0 and r.random() < 0.7:
                s, c = "bool" if left >= 2 else "()", LEAVES[0] if left >= 2 else LEAVES[1]
            if max(c.n, 1) > left or c.peak > MAX:
                s, c = "()", LEAVES[1]
            fields.append([names[i], s, c])
            left //= max(c.n, 1)
        r.shuffle(fields)
        return Body(shape, fields)

    if style < 0.4:
        d.bodies = [(None, body(budget), None)]
    else:
        d.enum = True
        m = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
        if r.random() < 0.04:
            m = r.choice([64, 100, 300])
        unit_only = r.random() < 0.25
        names = distinct_names(r, VARIANT_NAMES, m, "V")
        left = budget
        for i in range(m):
            if unit_only or m > 20 and r.random() < 0.8:
                b = Body(r.choice(["unit", "unit", "unit", "tuple", "record"]) if not unit_only else "unit", [])
            else:
                b = body(max(1, min(left // (m - i), left)) if r.random() < 0.8 else max(left // 2, 1))
            d.bodies.append([names[i], b, None])
            left -= min(left, prod([f[2] for f in b.fields]))
            if left <= m - i:
                left = m - i + 1
        if m and (unit_only and r.random() < 0.5 or r.random() < 0.08):
            # Explicit discriminants; with fields they need a primitive representation.
            d.discr = True
            d.reprs = "#[repr(%s)]" % r.choice(["i16", "i32", "i64"])
            vals = r.sample(range(-200, 200), m) if m <= 100 else list(range(m, 0, -1))
            prev = None
            used = set()
            for i in range(m):
                if r.random() < 0.6 or prev is None or prev + 1 in used or prev + 1 in vals:
                    v = vals[i]
                    d.bodies[i][2] = v
                else:
                    v = prev + 1
                used.add(v)
                prev = v
        elif m and unit_only and r.random() < 0.3:
            d.reprs = "#[repr(%s)]" % r.choice(["u16", "i32", "C"])
        d.bodies = [tuple(b) for b in d.bodies]
        if r.random() < 0.2:
            d.glob = True
        if r.random() < 0.15 and m:
            d.cfg_variants = [r.randrange(m + 1)]
    # Unused parameters are not allowed by the language: give each one a field.
    used = " ".join(f[1] for _, b, _ in d.bodies for f in b.fields)
    import re as _re

    def mentions(nm):
        return _re.search(r"(?<![\w'])" + _re.escape(nm) + r"(?!\w)", used)
    missing = [(p, next((t for t in inst if _re.search(r"(?<![\w'])" + _re.escape(p[1]) + r"(?!\w)", t[0])), None)) for p in d.params
               if p[0] != "const" and not mentions(p[1])]
    # An associated type does not use its parameter.
    drop = [p for p, _ in missing] if not (d.bodies and d.bodies[0][1].shape != "unit") else []
    if drop:
        d.params = [p for p in d.params if p not in drop]
    else:
        for p, t in missing:
            d.bodies[0][1].fields.append(["u%s" % p[1].replace("'", ""), t[0], t[1]])
    for p in d.params:
        if p[0] == "assoc":
            # `struct S<I: Iterator>(I::Item)` does not constrain I unless projected: it does, through the projection.
            pass
    if not d.std_ord and not any(p[0] == "assoc" for p in d.params):
        d.std_ord = True
    if wild and r.random() < 0.25:
        d.consts = r.sample(CONST_NAMES, r.choice([1, 2, 4]))
    if wild and r.random() < 0.3:
        d.macro = r.choice(["item", "names", "types", "both"])
    d.vis = r.choice(["pub ", "pub(crate) ", "pub(super) ", "pub "])
    if any(not f[2].ord for _, b, _ in d.bodies for f in b.fields):
        d.std_ord = False
    if d.peak() > MAX:
        return gen_decl(r, idx, wild)
    return d


def generics(d, bound):
    """(parameter list with bounds, argument list, where clause)"""
    ps, ws = [], []
    for kind, nm, how, _ in d.params:
        if kind == "life":
            if bound != "oracle":
                ps.append(nm)
        elif kind == "const":
            ps.append("const %s: usize" % nm)
        elif kind == "type":
            if bound == "oracle":
                ps.append("%s: Oracle" % nm)
            elif how == "inline":
                ps.append("%s: ordinal_map::Ordinal" % nm)
            elif how == "where":
                ps.append(nm)
                ws.append("%s: ordinal_map::Ordinal" % nm)
            else:
                ps.append("%s: std::marker::Sized" % nm)
                ws.append("%s: ordinal_map::Ordinal + std::marker::Sized" % nm)
        elif kind == "assoc":
            ps.append("%s: std::iter::Iterator" % nm + (" + 'static" if bound == "oracle" else ""))
            ws.append("%s::Item: %s" % (nm, "Oracle" if bound == "oracle" else "ordinal_map::Ordinal"))
        elif kind == "opt":
            ps.append("%s: Oracle" % nm if bound == "oracle" else nm)
            if bound != "oracle":
                ws.append("std::option::Option<%s>: ordinal_map::Ordinal" % nm)
    return ("<%s>" % ", ".join(ps) if ps else "", "<%s>" % ", ".join(p[1] for p in d.params) if d.params else "",
            "where " + ", ".join(ws) + " " if ws else "")


def render_body(b, vis, struct):
    if b.shape == "unit":
        return ";" if struct else ""
    v = vis if struct else ""
    if b.shape == "tuple":
        return " (" + ", ".join("%s%s" % (v, f[1]) for f in b.fields) + ")" + ("@;" if struct else "")
    return " { " + ", ".join("%s%s: %s" % (v, f[0], f[1]) for f in b.fields) + " }"


def render_decl(d):
    """The declaration itself, inside its module."""
    g, _, w = generics(d, "decl")
    out = []
    for i, c in enumerate(d.consts):
        out.append("#[allow(unused)] %s %s: u8 = %d;" % ("const" if i % 2 == 0 else "static", c, i))
    std = "" if not d.std_ord else "PartialEq, Eq, PartialOrd, Ord, "
    head = "#[derive(%sordinal_map::Ordinal)]\n%s%s" % (std, d.reprs + "\n" if d.reprs else "", "".join(a + "\n" for a in d.attrs))
    if d.enum:
        vs = []
        for i, (nm, b, dis) in enumerate(d.bodies):
            if i in d.cfg_variants:
                vs.append("    #[cfg(any())] Gone%d(std::string::String)" % i)
            vs.append("    /// Variant.\n    %s%s%s" % (nm, render_body(b, "", False), " = %d" % dis if dis is not None else ""))
        if len(d.bodies) in d.cfg_variants:
            vs.append("    #[cfg(any())] Gone(std::string::String)")
        item = "%s%senum %s%s %s{\n%s\n}" % ("", "pub ", d.name, g, w, ",\n".join(vs))
    else:
        b = d.bodies[0][1]
        t = render_body(b, d.vis, True)
        if t.endswith("@;"):
            item = "pub struct %s%s%s %s;" % (d.name, g, t[:-2], w)
        elif t == ";":
            item = "pub struct %s%s %s;" % (d.name, g, w)
        else:
            item = "pub struct %s%s %s%s" % (d.name, g, w, t)
    if d.macro == "item":
        out.append("macro_rules! mk { ($i:item) => { #[allow(dead_code)] %s $i } }" % head.split("\n")[0])
        out.append("mk! { %s%s }" % ("\n".join(head.split("\n")[1:]), item))
    elif d.macro in ("names", "types", "both") and not d.consts:
        # Names and types arrive as macro arguments.
        body, args, i = item, [], 0
        pats = []
        for vn, b, _ in d.bodies:
            for f in b.fields:
                if d.macro in ("types", "both") and i < 12:
                    k = "t%d" % i
                    spot = (": " + f[1]) if b.shape == "record" else f[1]
                    # Replace the first occurrence that is a whole field type.
                    import re as _re
                    m = _re.search((r"(?<=: )" if b.shape == "record" else r"(?<=[(,] )|(?<=\()") + "", body)
                    new = replace_type(body, f, b.shape, "$" + k)
                    if new:
                        body = new
                        pats.append("$%s:ty" % k)
                        args.append(f[1])
                        i += 1
                if d.macro in ("names", "both") and b.shape == "record" and i < 16:
                    k = "n%d" % i
                    import re as _re
                    new = _re.sub(r"(?<=[{,(] )%s(?=: )|(?<=pub )%s(?=: )|(?<=\) )%s(?=: )" % ((_re.escape(f[0]),) * 3), "$" + k, body, count=1)
                    if new != body:
                        body = new
                        pats.append("$%s:ident" % k)
                        args.append(f[0])
                        i += 1
            if vn and d.macro in ("names", "both") and i < 16:
                k = "v%d" % i
                import re as _re
                new = _re.sub(r"(?m)^    %s(?=[ ,\n]|$)" % _re.escape(vn), "    $" + k, body, count=1)
                if new != body:
                    body = new
                    pats.append("$%s:ident" % k)
                    args.append(vn)
                    i += 1
        out.append("macro_rules! mk { (%s) => { %s%s } }" % (", ".join(pats), head, body))
        out.append("mk! { %s }" % ", ".join(args))
    else:
        out.append(head + item)
    if d.glob and d.enum and not any(b[0].replace("r#", "") in ("T",) for b in d.bodies):
        out.append("#[allow(unused_imports)] use %s::*;" % d.name)
    return "\n".join(out)


def replace_type(body, f, shape, new):
    """Replace one field's type in the item text, if it is found unambiguously."""
    import re
    if shape == "record":
        pat = r"(?<![\w#])" + re.escape(f[0]) + ": " + re.escape(f[1]) + r"(?=, | \})"
        m = re.search(pat, body)
        if not m:
            return None
        return body[: m.start()] + f[0] + ": " + new + body[m.end():]
    return None


def render_oracle(d, path):
    """The oracle of the declared type, outside its module."""
    g, a, w = generics(d, "oracle")
    ty = "%s::%s%s" % (path, d.name, a)
    ctor = "%s::%s" % (path, d.name)
    counts, ranks, unranks, shows, marks = [], [], [], [], []
    for nm, b, _ in d.bodies:
        tys = [f[1] for f in b.fields]
        vs = ["q%d" % i for i in range(len(tys))]
        c = ctor + ("::" + nm if nm else "")
        if b.shape == "unit":
            pat = c
        elif b.shape == "tuple":
            pat = "%s(%s)" % (c, ", ".join(vs))
        else:
            pat = "%s { %s }" % (c, ", ".join("%s: %s" % (f[0], v) for f, v in zip(b.fields, vs)))
        cs = "&[%s]" % ", ".join("<%s as Oracle>::count()" % t for t in tys)
        counts.append("prod(%s)" % cs)
        k = len(counts) - 1
        ranks.append("%s => before(&c, %d) + mixed(&[%s], %s)," % (pat, k, ", ".join("%s.rank()" % v for v in vs), cs))
        build = "; ".join("let %s = <%s as Oracle>::unrank(d[%d])" % (v, t, i) for i, (v, t) in enumerate(zip(vs, tys)))
        if b.shape == "record":
            made = "%s { %s }" % (c, ", ".join("%s: %s" % (f[0], v) for f, v in zip(b.fields, vs)))
        else:
            made = pat
        unranks.append("if i < c[%d] { let d = digits(i, %s); let _ = &d; %s; return %s; } i -= c[%d];" % (k, cs, build, made, k))
        shows.append("%s => shown(%s, &[%s])," % (pat, '"%s"' % (nm or d.name), ", ".join("%s.show()" % v for v in vs)))
        for t in tys[:4]:
            marks.append("<%s as Oracle>::marks(out);" % t)
        if len(tys) > 1:
            marks.append("out.push(prod(&[%s]));" % ", ".join("<%s as Oracle>::count()" % t for t in tys[1:]))
    if d.bodies:
        mtch = lambda arms: "match self { %s }" % " ".join(arms)
    else:
        mtch = lambda arms: "match *self {}"
    import re
    return re.sub(r"'l\d+", "'static", """impl%s Oracle for %s %s{
  fn count() -> u128 { let c: &[u128] = &[%s]; c.iter().sum() }
  fn rank(&self) -> u128 { let c: &[u128] = &[%s]; let _ = c; %s }
  #[allow(unused_mut)] fn unrank(mut i: u128) -> Self { let c: &[u128] = &[%s]; let _ = c; %s unreachable!("{i}") }
  fn order(&self, o: &Self) -> std::cmp::Ordering { self.rank().cmp(&o.rank()) }
  fn show(&self) -> String { %s }
  fn marks(out: &mut Vec<u128>) { let c: &[u128] = &[%s]; let mut s = 0u128; for x in c.iter().take(40) { s += x; out.push(s); } %s }
}""" % (g, ty, w, ", ".join(counts), ", ".join(counts), mtch(ranks), ", ".join(counts), " ".join(unranks), mtch(shows), ", ".join(counts), " ".join(marks[:24])))


def concrete(d, path):
    args = [p[3] for p in d.params]
    return "%s::%s%s" % (path, d.name, "<%s>" % ", ".join(args) if args else "")


PRELUDE = """#![allow(warnings)]
use omv::case::{Ctx, Subject};
use omv::engine::{main as run, Prop};
use omv::oracle::{before, digits, mixed, prod, shown, Oracle};
use omv::subject_of;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Lt<'a>(pub std::marker::PhantomData<&'a u8>);
impl<'a> ordinal_map::Ordinal for Lt<'a> {
    const ORDINAL_SIZE: usize = 1;
    fn ordinal(&self) -> usize { 0 }
    fn from_ordinal(o: usize) -> Option<Self> { if o == 0 { Some(Lt(std::marker::PhantomData)) } else { None } }
}
impl Oracle for Lt<'static> {
    fn count() -> u128 { 1 }
    fn rank(&self) -> u128 { 0 }
    fn unrank(_: u128) -> Self { Lt(std::marker::PhantomData) }
    fn order(&self, _: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal }
    fn show(&self) -> String { "Lt".into() }
}
"""


# Of the crate that derives.
EDITIONS = ("2021", "2018", "2024")


class Item:
    """One generated unit of a program."""
    edition = "2021"

    def __init__(self, ty, n, std_ord, decl="", oracle="", source=None, shrink=None):
        self.ty, self.n, self.std_ord = ty, n, std_ord
        self.decl, self.oracle, self.source, self.shrink = decl, oracle, source or ty, shrink

    def text(self):
        return self.decl + "\n" + self.oracle

    def twin(self):
        """The same with a hand-written implementation in place of the derived one: compiles unless
        the generator itself is wrong."""
        d = self.shrink
        if d is None or not self.decl:
            return self
        g, a, w = generics(d, "decl")
        imp = ("impl%s ordinal_map::Ordinal for %s%s %s{ const ORDINAL_SIZE: usize = 0; fn ordinal(&self) -> usize { 0 } "
               "fn from_ordinal(_x_: usize) -> std::option::Option<Self> { std::option::Option::None } }\n" % (g, d.name, a, w))
        decl = self.decl.replace("#[derive(ordinal_map::Ordinal)]", "").replace(", ordinal_map::Ordinal)]", ")]")
        t = Item(self.ty, self.n, self.std_ord, decl[:-1] + imp + "}", self.oracle)
        t.edition = self.edition
        return t


def decl_item(d, idx):
    path = "m%d" % idx
    decl = "pub mod %s {\n%s\n}" % (path, render_decl(d))
    return Item(concrete(d, path), d.n(), d.std_ord and not d.discr, decl, render_oracle(d, path), render_decl(d), d)


def program(items, prop, fns, cases, rule):
    """fns: list of (function, weight, max_ops); `order` is replaced by the std order where there is one."""
    subs = []
    for it in items:
        for f, w, m in fns:
            g = "order_std" if f == "order" and it.std_ord else f
            subs.append("subject_of!(%d, %d, %s, %s)" % (w, m, g, it.ty))
    return PRELUDE + "\n".join(it.text() for it in items) + """
fn main() {
    run(vec![Prop { id: "%s", rule: "%s", ctx: Ctx::default, quick: %d, thorough: %d, subjects: vec![
        %s
    ] }]);
}
""" % (prop, rule, cases, cases, ",\n        ".join(subs))


def shrink_decl(d):
    """Smaller variants of a declaration, most drastic first."""
    import copy
    out = []
    for i in range(len(d.bodies)):
        if d.enum:
            e = copy.deepcopy(d)
            del e.bodies[i]
            e.cfg_variants = []
            out.append(e)
    for i in range(len(d.bodies)):
        for j in range(len(d.bodies[i][1].fields)):
            e = copy.deepcopy(d)
            del e.bodies[i][1].fields[j]
            out.append(e)
            if d.bodies[i][1].fields[j][1] != "bool":
                e = copy.deepcopy(d)
                e.bodies[i][1].fields[j][1:] = ["bool", LEAVES[0]]
                out.append(e)
    for attr, v in (("macro", None), ("consts", []), ("glob", False), ("cfg_variants", [])):
        if getattr(d, attr):
            e = copy.deepcopy(d)
            setattr(e, attr, v)
            out.append(e)
    used = " ".join(f[1] for _, b, _ in d.bodies for f in b.fields)
    for i, p in enumerate(d.params):
        e = copy.deepcopy(d)
        del e.params[i]
        out.append(e)
    return [e for e in out if e.peak() <= MAX]


def narrow(s):
    """The type written for a 64-bit machine, or its like for the machine at hand."""
    if BITS == 64:
        return s
    for a, b in (("u32", "u16"), ("i32", "i16"), ("NonZeroU64", "NonZeroU32"), ("NonZeroI64", "NonZeroI32"), ("[u8; 9]", "[u8; 5]"), ("[u8; 8]", "[u8; 4]"), ("[u16; 4]", "[u16; 2]"),
                 ("Box<u16>; 4]", "Box<u16>; 2]"), ("[bool; 64]", "[bool; 32]"), ("[bool; 65]", "[bool; 33]"), ("Ordering; 41]", "Ordering; 21]"), ("(u8, u8, u8, u8, u8, u8, u8, u8)", "(u8, u8, u8, u8)")):
        s = re.sub(r"(?<![A-Za-z0-9_])" + re.escape(a), b, s)
    return s


def parse(s):
    """Count and orderedness of a type written as text."""
    s = s.strip()

    def split(x):
        out, depth, cur = [], 0, ""
        for ch in x:
            if ch in "<([":
                depth += 1
            elif ch in ">)]":
                depth -= 1
            if ch in ",;" and depth == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append(cur)
        return [o.strip() for o in out]
    for t in LEAVES:
        if t.s == s:
            return t
    if s.startswith("("):
        return T(s, *_k(tuple_([parse(x) for x in split(s[1:-1])])))
    if s.startswith("["):
        a, k = split(s[1:-1])
        return T(s, *_k(array(parse(a), int(k))))
    head, rest = s.split("<", 1)
    args = [parse(x) for x in split(rest[:-1])]
    f = {"Option": option, "Result": result, "Either": either, "Box": boxed}[head.split("::")[-1]]
    return T(s, *_k(f(*args)))


def _k(t):
    return t.n, t.ord, t.peak


def exact_decl(r, idx, n=MAX):
    """A declaration with exactly n values."""
    d = Decl()
    d.name = "S%d" % idx
    if r.random() < 0.5:
        p = r.choice([x for x in (1, 3, 5, 17, 257, 641, 65537, 6700417) if n % x == 0])
        parts = [exact(r, p), exact(r, n // p)]
        r.shuffle(parts)
        if r.random() < 0.5:
            parts.insert(r.randrange(3), LEAVES[1])
        d.bodies = [(None, Body(r.choice(["tuple", "record"]), [["x%d" % i, t.s, t] for i, t in enumerate(parts)]), None)]
    else:
        d.enum = True
        left = n
        k = r.choice([1, 2, 3, 4])
        for i in range(k):
            v = left if i == k - 1 else r.choice([0, 1, 2, 255, 256, 65536, 2**32 - 1, 2**32, left // 2, left])
            v = min(v, left)
            left -= v
            t = exact(r, v)
            d.bodies.append(("V%d" % i, Body("unit", []) if v == 1 and r.random() < 0.5 else Body(r.choice(["tuple", "record"]), [["f", t.s, t]]), None))
    d.std_ord = all(f[2].ord for _, b, _ in d.bodies for f in b.fields)
    if d.peak() > MAX or d.n() != n:
        return exact_decl(r, idx, n)
    return d
