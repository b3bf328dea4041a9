"""Writes harness/src/derived.rs: derived types over the attributes of #[derive(Value)], each with the value that
its documentation says it should stream as. The set of types is fixed (seeded); field values are symbolic."""
import os
import random

rng = random.Random(20240711)
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "derived.rs")

NAMES = ["a", "b", "r#type", "long_name", "e"] + ["f%d" % i for i in range(5, 300)]
TYPES = ["u8", "i64", "bool", "str", "nest"]

# flattened types: rust type, value, entries as (label or None, index offset or None, explicit index or None, value expr)
FLAT = {
    "FlatN": ("FlatN { p: x, q: y }", [("p", 0, None), ("q", 1, None)]),
    "FlatT": ("FlatT(x, y)", [(None, 0, None), (None, 1, None)]),
    "FlatR": ("FlatR { p: x, q: y }", [("p", None, None), ("q", None, None)]),
    "FlatS": ("FlatS(x, y)", [(None, None, None), (None, None, None)]),
    "FlatX": ("FlatX { p: x, q: y }", [("p", None, 11), ("q", None, 12)]),
    "FlatE": ("FlatE::V { p: x, q: y }", [("p", 0, None), ("q", 1, None)]),
}


def opt(v, f=lambda v: v):
    return "None" if v is None else "Some(%s)" % f(v)


def lab(ident, explicit):
    if explicit is None:
        return 'ident("%s")' % ident.replace("r#", "")
    return 'lit("%s")' % explicit[1]


def hdr(tag, label, index):
    return "Hdr { tag: %s, label: %s, index: %s }" % (opt(tag), opt(label), opt(index))


class Alloc:
    def __init__(self):
        self.next = 0
        self.explicit = False

    def take(self, attr):
        """attr: None, ('const', n) or ('path', n)"""
        if attr is not None:
            self.explicit = True
            kind, n = attr
            self.next = n + 1 if kind == "const" else self.next + 1
            return "Index::new_isize(%d)" % n
        n = self.next
        self.next += 1
        if self.explicit:
            return "Index::new_isize(%d)" % n
        return "off(%d)" % n


class Names:
    def __init__(self):
        self.n = 0
        self.lets = []

    def value(self, ty):
        x = "x%d" % self.n
        self.n += 1
        if ty == "nest":
            self.lets.append("let %s = rt::u8_();" % x)
            return "Nest { n: %s }" % x, 'nest(%s)' % x, "Nest"
        if ty == "str":
            self.lets.append("let %s = rt::letters(1);" % x)
            return x, "Node::Text(Some(1), vec![(false, %s)])" % x, "&'static str"
        self.lets.append("let %s = rt::%s_();" % (x, ty))
        return x, {"u8": "Node::U8(%s)", "i64": "Node::I64(%s)", "bool": "Node::Bool(%s)"}[ty] % x, ty


def attrs(d):
    parts = []
    for k, v in d:
        parts.append(k if v is None else "%s = %s" % (k, v))
    if not parts:
        return ""
    # one attribute, or one per item
    if rng.random() < 0.5:
        return "#[sval(%s)] " % ", ".join(parts)
    return "".join("#[sval(%s)] " % p for p in parts)


def tag_attr(t):
    return t if rng.random() < 0.5 else '"%s"' % t


def label_attr(l):
    return l[0] if l[0] != "const" else '"%s"' % l[1]


def index_attr(i):
    if i[0] == "path":
        return "IX%d" % i[1]
    return str(i[1])


def label_choice(j):
    return ("LAB", "lab-path") if rng.random() < 0.3 else ("const", "lbl \\\"%d" % j)


def fields(named, n, unlabeled, unindexed, names, rich, flatten):
    """-> (rust declaration of the fields, rust value, target, [entry nodes], count or None)"""
    decls, vals, entries = [], [], []
    alloc = Alloc()
    all_labels = not named and not unlabeled and rng.random() < (0.4 if rich else 0)
    target = "RecordTuple" if named else "Tuple"
    const_size = True
    count = 0
    path_from = rng.randrange(n + 1) if rich and n and not unindexed and not flatten and rng.random() < 0.2 else n
    flat_at = {rng.randrange(n)} if flatten and n else set()
    if flatten and n > 2 and rng.random() < 0.4:
        flat_at.add(rng.randrange(n))
    for j in range(n):
        name = NAMES[j] if named else None
        f_attrs = []
        flat = j in flat_at
        ty = rng.choice(list(FLAT)) if flat else rng.choice(TYPES)
        if not flat and rich and rng.random() < 0.15:
            v, _, rty = names.value(ty)
            f_attrs.append(("skip", None if rng.random() < 0.5 else "true"))
            decls.append((attrs(f_attrs), name, rty))
            vals.append((name, v))
            continue
        tag = data_tag = label = index = None
        if flat:
            f_attrs.append(("flatten", None))
        if rich and not flat and rng.random() < 0.3:
            tag = rng.choice(["T1", "T2"])
            f_attrs.append(("tag", tag_attr(tag)))
        if rich and not flat and rng.random() < 0.25:
            data_tag = rng.choice(["T1", "T2"])
            f_attrs.append(("data_tag", tag_attr(data_tag)))
        if rich and not unlabeled and (all_labels or (named and not flat and rng.random() < 0.3)):
            label = label_choice(j)
            f_attrs.append(("label", label_attr(label)))
        if rich and not unindexed and not flat:
            if j >= path_from:
                index = ("path", rng.choice([40, 41]))
            elif rng.random() < 0.3:
                index = ("const", rng.choice([0, 1, 2, 5, 7, -1, -4]))
            if index:
                f_attrs.append(("index", index_attr(index)))
        has_label = not unlabeled and (named or label is not None)
        has_index = not unindexed
        target = {(True, True): "RecordTuple", (True, False): "Record", (False, True): "Tuple",
                  (False, False): "Seq"}[(has_label, has_index)]
        if flat:
            const_size = False
            x, y = "x%d" % names.n, "x%d" % (names.n + 1)
            names.n += 2
            names.lets += ["let %s = rt::u8_();" % x, "let %s = rt::u8_();" % y]
            expr, es = FLAT[ty]
            v = expr.replace("p: x", "p: " + x).replace("q: y", "q: " + y).replace("(x, y)", "(%s, %s)" % (x, y))
            start = alloc.next
            nxt = start
            for (el, eo, ex), var in zip(es, (x, y)):
                if ex is not None:
                    i, it = ex, "Index::new_isize(%d)"
                elif eo is not None:
                    i, it = start + eo, "off(%d)"
                else:
                    i, it = nxt, "off(%d)"
                nxt = i + 1
                l = 'ident("%s")' % el if el else 'computed("%d")' % i
                node = "Node::U8(%s)" % var
                entries.append({"RecordTuple": "(None, %s, %s, %s)" % (l, it % i, node),
                                "Record": "(None, %s, %s)" % (l, node),
                                "Tuple": "(None, %s, %s)" % (it % i, node), "Seq": node}[target])
            if has_index:
                alloc.next = nxt
            elif target == "Record":
                alloc.next = nxt
            decls.append((attrs(f_attrs), name, ty))
            vals.append((name, v))
            continue
        v, node, rty = names.value(ty)
        if data_tag:
            node = "Node::Tagged(Hdr { tag: Some(%s), ..Hdr::default() }, Box::new(%s))" % (data_tag, node)
        i = alloc.take(index) if has_index else None
        l = lab(name, label) if has_label else None
        entries.append({"RecordTuple": "(%s, %s, %s, %s)" % (opt(tag), l, i, node),
                        "Record": "(%s, %s, %s)" % (opt(tag), l, node),
                        "Tuple": "(%s, %s, %s)" % (opt(tag), i, node), "Seq": node}[target])
        decls.append((attrs(f_attrs), name, rty))
        vals.append((name, v))
        count += 1
    decl = ", ".join("%s%s" % (a, "%s: %s" % (nm, t) if named else t) for a, nm, t in decls)
    val = ", ".join("%s: %s" % (nm, v) if named else v for nm, v in vals)
    size = "Some(%d)" % count if const_size else "None"
    return decl, val, target, entries, size


def pub(decl, named):
    return decl


def body(target, h, size, entries):
    vs = "vec![%s]" % ", ".join(entries)
    if target == "Seq":
        return "Node::Tagged(%s, Box::new(Node::Seq(%s, %s)))" % (h, size, vs)
    return "Node::%s(%s, %s, %s)" % (target, h, size, vs)


def container(rich):
    a = []
    tag = label = index = None
    if rich and rng.random() < 0.4:
        tag = rng.choice(["T1", "T2"])
        a.append(("tag", tag_attr(tag)))
    if rich and rng.random() < 0.4:
        label = label_choice(9)
        a.append(("label", label_attr(label)))
    if rich and rng.random() < 0.4:
        index = rng.choice([("const", 3), ("const", -2), ("path", 40), ("const", 0)])
        a.append(("index", index_attr(index)))
    rng.shuffle(a)
    return a, tag, label, index


def ix(index):
    return None if index is None else "Index::new_isize(%d)" % index[1]


class Out:
    def __init__(self):
        self.types = []
        self.groups = {}

    def add(self, group, decl, names, cases, exact=True):
        """cases: [(value, node, tag)]"""
        g = self.groups.setdefault(group, [])
        fn = "%s_%d" % (group, len(g))
        if len(cases) == 1:
            v, n, t = cases[0]
            b = "ck(m, &%s, &%s, %s, %s)" % (v, n, t, str(exact).lower())
        else:
            b = "match rt::choice(%d) { %s }" % (len(cases), " ".join(
                "%s => ck(m, &%s, &%s, %s, %s)," % (i if i + 1 < len(cases) else "_", v, n, t, str(exact).lower())
                for i, (v, n, t) in enumerate(cases)))
        self.types.append("%s\nfn %s(m: Mode) { %s %s }\n" % (decl, fn, " ".join(names.lets), b))
        g.append(fn)

    def write(self):
        s = HEAD
        s += "\n".join(self.types)
        for g, fns in self.groups.items():
            s += "\npub const %s: &[fn(Mode)] = &[%s];\n" % (g.upper(), ", ".join(fns))
        with open(OUT, "w") as f:
            f.write(s)


HEAD = '''//! Written by tools/derive_gen.py.
#![allow(non_camel_case_types, dead_code, unused_assignments, unused_variables)]
use crate::h_derive::{ck, computed, ident, lit, nest, off, Mode, Nest};
use crate::node::{Hdr, Node};
use crate::rec::{T1, T2};
use crate::rt;
use sval::Index;
use sval_derive::Value;

const IX40: i64 = 40;
const IX41: u32 = 41;
const LAB: sval::Label<'static> = sval::Label::new("lab-path");

#[derive(Value)]
struct FlatN { p: u8, q: u8 }
#[derive(Value)]
struct FlatT(u8, u8);
#[derive(Value)]
#[sval(unindexed_fields)]
struct FlatR { p: u8, q: u8 }
#[derive(Value)]
#[sval(unindexed_fields)]
struct FlatS(u8, u8);
#[derive(Value)]
struct FlatX { #[sval(index = 11)] p: u8, q: u8 }
#[derive(Value)]
enum FlatE { V { p: u8, q: u8 } }

'''

out = Out()
serial = 0


def fresh(p):
    global serial
    serial += 1
    return "%s%d" % (p, serial)


def struct(group, named, n, unlabeled, unindexed, rich, flatten=False):
    ident = fresh("St")
    names = Names()
    a, tag, label, index = container(rich)
    if unlabeled:
        a.append(("unlabeled_fields", None))
    if unindexed:
        a.append(("unindexed_fields", None))
    decl, val, target, entries, size = fields(named, n, unlabeled, unindexed, names, rich, flatten)
    node = body(target, hdr(tag, lab(ident, label), ix(index)), size, entries)
    d = "#[derive(Value)]\n%sstruct %s" % (attrs(a), ident)
    d += " { %s }" % decl if named else "(%s);" % decl
    v = "%s { %s }" % (ident, val) if named else "%s(%s)" % (ident, val)
    out.add(group, d, names, [(v, node, opt(tag))], exact=not flatten)


def newtype(rich, transparent=False):
    ident = fresh("Nt")
    names = Names()
    a, tag, label, index = container(rich)
    ty = rng.choice(TYPES)
    v, node, rty = names.value(ty)
    t = opt(tag)
    if transparent:
        a = [("transparent", None)]
        t = "Some(sval::tags::NUMBER)" if ty in ("u8", "i64") else "None"
    else:
        node = "Node::Tagged(%s, Box::new(%s))" % (hdr(tag, lab(ident, label), ix(index)), node)
    out.add("scalars", "#[derive(Value)]\n%sstruct %s(%s);" % (attrs(a), ident, rty), names,
            [("%s(%s)" % (ident, v), node, t)])


def unit(rich):
    ident = fresh("r#Un" if rng.random() < 0.3 else "Un")
    names = Names()
    a, tag, label, index = container(rich)
    out.add("scalars", "#[derive(Value)]\n%sstruct %s;" % (attrs(a), ident), names,
            [(ident, "Node::Tag(%s)" % hdr(tag, lab(ident, label), ix(index)), opt(tag))])


def enum(n, rich, mode, discriminants=False, flatten=False):
    ident = fresh("En")
    names = Names()
    a, tag, label, index = container(rich and mode != "dynamic")
    if mode == "dynamic":
        tag = label = index = None
        a = [("dynamic", None)]
    unlab = mode in ("unlabeled", "bare")
    unix = mode in ("unindexed", "bare")
    if unlab:
        a.append(("unlabeled_variants", None))
    if unix:
        a.append(("unindexed_variants", None))
    alloc = Alloc()
    decls, cases = [], []
    for j in range(n):
        vi = ["A", "B", "r#Self_", "Dd", "E"][j] if j < 5 else "V%d" % j
        kind = rng.choice(["unit", "newtype", "named", "tuple"]) if j else rng.choice(["newtype", "named", "tuple"])
        va = []
        vt = vl = vx = None
        dyn = mode == "dynamic"
        if rich and rng.random() < 0.3 and not (dyn and kind == "newtype"):
            vt = rng.choice(["T1", "T2"])
            va.append(("tag", tag_attr(vt)))
        if rich and rng.random() < 0.3 and not unlab and not (dyn and kind != "unit"):
            vl = label_choice(j)
            va.append(("label", label_attr(vl)))
        if rich and rng.random() < 0.3 and not dyn:
            vx = ("const", rng.choice([0, 1, 2, 5, -3]))
            va.append(("index", index_attr(vx)))
        disc = None
        if discriminants and rng.random() < 0.5:
            # rust wants them distinct, and so do we
            disc = ("const", 10 * (j + 1) * rng.choice([1, -1]))
        if unix or dyn:
            index_node = ix(vx)
        else:
            index_node = alloc.take(vx if vx is not None else disc)
        label_node = None if (unlab or (dyn and kind != "unit")) else lab(vi, vl)
        h = hdr(vt, label_node, index_node)
        vtag = opt(vt)
        if kind == "unit":
            d, v, node = "", "", "Node::Tag(%s)" % h
        elif kind == "newtype":
            ty = rng.choice(TYPES)
            x, node, rty = names.value(ty)
            d, v = "(%s)" % rty, "(%s)" % x
            if dyn:
                vtag = "Some(sval::tags::NUMBER)" if ty in ("u8", "i64") else "None"
            else:
                node = "Node::Tagged(%s, Box::new(%s))" % (h, node)
        else:
            named = kind == "named"
            ul = rich and rng.random() < 0.2
            ui = rich and rng.random() < 0.2
            if ul:
                va.append(("unlabeled_fields", None))
            if ui:
                va.append(("unindexed_fields", None))
            k = rng.randrange(0, 4) if named else rng.choice([0, 2, 3])
            decl, val, target, entries, size = fields(named, k, ul, ui, names, rich, flatten)
            node = body(target, h, size, entries)
            d = " { %s }" % decl if named else "(%s)" % decl
            v = " { %s }" % val if named else "(%s)" % val
        decls.append("%s%s%s%s" % (attrs(va), vi, d, "" if disc is None else " = %d" % disc[1]))
        t = opt(tag)
        if dyn:
            t = vtag
        else:
            node = "Node::Enum(%s, Some(Box::new(%s)))" % (hdr(tag, lab(ident, label), ix(index)), node)
        cases.append(("%s::%s%s" % (ident, vi, v), node, t))
    rep = "#[repr(i32)]\n" if discriminants else ""
    out.add("flat_enums" if flatten else "enums", "#[derive(Value)]\n%s%senum %s { %s }" % (rep, attrs(a), ident, ", ".join(decls)), names, cases,
            exact=not flatten)


for named in (True, False):
    for n in ((0, 1, 2, 3) if named else (0, 2, 3)):
        for ul in (False, True):
            for ui in (False, True):
                struct("structs", named, n, ul, ui, False)
                struct("structs", named, n, ul, ui, True)
                if n > 1:
                    for _ in range(3):
                        struct("structs", named, n, ul, ui, True)
                    struct("flats", named, n, ul, ui, False, True)
                    struct("flats", named, n + 1, ul, ui, False, True)
                    struct("flats", named, n + 1, ul, ui, True, True)
for i in range(6):
    newtype(i > 0)
    newtype(False, True)
    unit(i > 0)
for mode in ("plain", "plain", "unlabeled", "unindexed", "bare", "dynamic"):
    for i in range(5):
        enum(1 + i % 5, i > 1, mode)
        enum(2 + i % 4, i > 0, mode)
for i in range(8):
    enum(2 + i % 4, i > 3, "plain", discriminants=True)
for i in range(8):
    enum(1 + i % 3, i > 3, "plain" if i % 4 else "dynamic", flatten=True)


# large types: more fields and variants, further indexes, other labels, attributes that are switched off
def large(n, kind, unlabeled, unindexed):
    """n fields or variants, one of them symbolic at a time"""
    ident = fresh("La")
    names = Names()
    names.lets.append("let x = rt::u8_(); let at = [0, %d, %d][rt::choice(3)];" % (n // 2, n - 1))
    a = ([("unlabeled_fields", None)] if unlabeled else []) + ([("unindexed_fields", None)] if unindexed else [])
    el = "if %d == at { x } else { 7 }"
    target = {(True, True): "RecordTuple", (True, False): "Record", (False, True): "Tuple",
              (False, False): "Seq"}[(kind == "named" and not unlabeled, not unindexed)]
    es = []
    for j in range(n):
        node = "Node::U8(%s)" % (el % j)
        l, i = 'ident("f%d")' % j, "off(%d)" % j
        es.append({"RecordTuple": "(None, %s, %s, %s)" % (l, i, node), "Record": "(None, %s, %s)" % (l, node),
                   "Tuple": "(None, %s, %s)" % (i, node), "Seq": node}[target])
    node = body(target, hdr(None, lab(ident, None), None), "Some(%d)" % n, es)
    if kind == "named":
        d = " { %s }" % ", ".join("f%d: u8" % j for j in range(n))
        v = " { %s }" % ", ".join("f%d: %s" % (j, el % j) for j in range(n))
    else:
        d = "(%s);" % ", ".join("u8" for j in range(n))
        v = "(%s)" % ", ".join(el % j for j in range(n))
    out.add("larges", "#[derive(Value)]\n%sstruct %s%s" % (attrs(a), ident, d), names, [(ident + v, node, "None")])


for kind in ("named", "tuple"):
    for n in (17, 33, 70):
        large(n, kind, False, False)
    large(20, kind, True, False)
    large(20, kind, False, True)
    large(20, kind, True, True)


def many_variants(n, unlabeled, unindexed):
    ident = fresh("Mv")
    names = Names()
    a = ([("unlabeled_variants", None)] if unlabeled else []) + ([("unindexed_variants", None)] if unindexed else [])
    decls, cases = [], []
    names.lets.append("let x = rt::u8_();")
    for j in range(n):
        h = hdr(None, None if unlabeled else 'ident("V%d")' % j, None if unindexed else "off(%d)" % j)
        kind = ["", "(u8)", " { p: u8, q: u8 }", "(u8, u8)"][j % 4]
        decls.append("V%d%s" % (j, kind))
        v = ["", "(x)", " { p: x, q: 2 }", "(x, 2)"][j % 4]
        node = ["Node::Tag(%s)", "Node::Tagged(%s, Box::new(Node::U8(x)))",
                'Node::RecordTuple(%s, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])',
                "Node::Tuple(%s, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])"][j % 4] % h
        cases.append((ident + "::V%d" % j + v, "Node::Enum(%s, Some(Box::new(%s)))" % (hdr(None, lab(ident, None), None), node), "None"))
    out.add("larges", "#[derive(Value)]\n%senum %s { %s }" % (attrs(a), ident, ", ".join(decls)), names, cases)


many_variants(40, False, False)
many_variants(20, True, False)
many_variants(20, False, True)

# indexes at the edges of integer types, each followed by an implicit one
EDGES = [126, 127, 128, 254, 255, 256, 999, 32766, 32767, 32768, 65534, 65535, 65536, 2147483646, 2147483647, 2147483648,
         4294967294, 4294967295, 4294967296, 1 << 53, (1 << 63) - 3, -2, -128, -129, -32769, -2147483648, -2147483649, -(1 << 63) + 1]
for e in EDGES:
    i = fresh("Ix")
    ns = Names()
    ns.lets.append("let (x, y) = (rt::u8_(), rt::u8_());")
    out.add("edges", "#[derive(Value)]\nstruct %s { #[sval(index = %d)] a: u8, b: u8 }" % (i, e), ns,
            [("%s { a: x, b: y }" % i, "Node::RecordTuple(%s, Some(2), vec![(None, ident(\"a\"), Index::new_isize(%d), Node::U8(x)), "
              "(None, ident(\"b\"), Index::new_isize(%d), Node::U8(y))])" % (hdr(None, lab(i, None), None), e, e + 1), "None")])
    i = fresh("Iv")
    ns = Names()
    out.add("edges", "#[derive(Value)]\n#[repr(isize)]\nenum %s { A = %d, B }" % (i, e), ns,
            [("%s::%s" % (i, v), "Node::Enum(%s, Some(Box::new(Node::Tag(%s))))" % (hdr(None, lab(i, None), None),
              hdr(None, 'ident("%s")' % v, "Index::new_isize(%d)" % (e + k))), "None") for k, v in enumerate("AB")])

for l in ["", "\\u{e9}", "\\\\", "\\n", "a b", "x" * 300]:
    i = fresh("Lb")
    ns = Names()
    ns.lets.append("let (x, y) = (rt::u8_(), rt::u8_());")
    out.add("edges", '#[derive(Value)]\n#[sval(label = "%s")]\nstruct %s { #[sval(label = "%s")] a: u8, b: u8 }' % (l, i, l), ns,
            [("%s { a: x, b: y }" % i, 'Node::RecordTuple(%s, Some(2), vec![(None, lit("%s"), off(0), Node::U8(x)), '
              '(None, ident("b"), off(1), Node::U8(y))])' % (hdr(None, 'lit("%s")' % l, None), l), "None")])

OFF = """#[derive(Value)]
#[sval(unlabeled_fields = false, unindexed_fields = false)]
struct OffS { #[sval(skip = false)] a: u8, #[sval(flatten = false)] b: Nest }
#[derive(Value)]
#[sval(transparent = false)]
struct OffN(u8);
#[derive(Value)]
#[sval(dynamic = false, unlabeled_variants = false, unindexed_variants = false)]
enum OffE { A(u8), B }
#[derive(Value)]
struct Gen1<'a, T: ?Sized, const N: usize> where T: PartialEq { a: &'a T, b: [u8; N] }
#[derive(Value)]
enum Gen2<A, B> { Both(A, B), #[sval(label = "right")] Right { r: B }, Left(A) }
#[derive(Value)]
struct Gen3<T>(T);
"""
ns = Names()
ns.lets.append("let x = rt::u8_();")
out.add("edges", OFF, ns, [
    ("OffS { a: x, b: Nest { n: x } }", 'Node::RecordTuple(%s, Some(2), vec![(None, ident("a"), off(0), Node::U8(x)), (None, ident("b"), off(1), nest(x))])' % hdr(None, 'ident("OffS")', None), "None"),
    ("OffN(x)", "Node::Tagged(%s, Box::new(Node::U8(x)))" % hdr(None, 'ident("OffN")', None), "None"),
    ("OffE::A(x)", "Node::Enum(%s, Some(Box::new(Node::Tagged(%s, Box::new(Node::U8(x))))))" % (hdr(None, 'ident("OffE")', None), hdr(None, 'ident("A")', "off(0)")), "None"),
    ("OffE::B", "Node::Enum(%s, Some(Box::new(Node::Tag(%s))))" % (hdr(None, 'ident("OffE")', None), hdr(None, 'ident("B")', "off(1)")), "None"),
    ('Gen1::<str, 1> { a: "t", b: [x] }', 'Node::RecordTuple(%s, Some(2), vec![(None, ident("a"), off(0), Node::Text(Some(1), vec![(false, "t")])), (None, ident("b"), off(1), Node::Tagged(Hdr { tag: Some(sval::tags::CONSTANT_SIZE), ..Hdr::default() }, Box::new(Node::Seq(Some(1), vec![Node::U8(x)]))))])' % hdr(None, 'ident("Gen1")', None), "None"),
    ("Gen2::<u8, bool>::Both(x, true)", "Node::Enum(%s, Some(Box::new(Node::Tuple(%s, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::Bool(true))]))))" % (hdr(None, 'ident("Gen2")', None), hdr(None, 'ident("Both")', "off(0)")), "None"),
    ("Gen2::<u8, Gen3<u8>>::Right { r: Gen3(x) }", 'Node::Enum(%s, Some(Box::new(Node::RecordTuple(%s, Some(1), vec![(None, ident("r"), off(0), Node::Tagged(%s, Box::new(Node::U8(x))))]))))' % (hdr(None, 'ident("Gen2")', None), hdr(None, 'lit("right")', "off(1)"), hdr(None, 'ident("Gen3")', None)), "None"),
])

out.write()
