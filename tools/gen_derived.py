#!/usr/bin/env python3
"""Writes a program with a struct or enum for every combination of derive attributes within the
bounds of the tier (gen_derived.py quick|thorough DIR), each with what it is declared to be on the wire (the reference for C11)."""
import itertools
import os
import sys

PARTS = 8
thorough = sys.argv[1] == "thorough"
out = []
rows = []


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def attrs(parts, style):
    """The attributes, together or each on its own, between others."""
    if not parts:
        return "/// Documented\n" if style % 3 == 2 else ""
    if style % 3 == 0:
        return "#[serde(%s)]\n" % ", ".join(parts)
    if style % 3 == 1:
        return "".join("#[serde(%s)]\n" % p for p in parts)
    return "/// Documented\n#[allow(dead_code)]\n#[serde(%s)]\n/** More */\n" % ", ".join(reversed(parts))


# Names which the generated code might use itself, or of other fields
IDENTS = [["value", "st", "ctx", "index"], ["a", "b", "c", "d"], ["names", "de", "done_flag", "err"], ["r#type", "fields", "x", "y"]]
RENAMES = [["b", "a", "d", "c"], ["", "é\"\\", " ", "x y"], ["Value", "VALUE", "value_", "valu"], ["type", "kind", "tag", "0"]]
PLAIN = ["u8", "String", "bool", "Vec<u8>", "Unit", "(u8, char)", "Option<Option<u8>>", "Sub1"]


class Field:
    """kind -> attributes, type, (wire name, ..) or flattened."""

    def __init__(self, kind, pos, n, ident):
        self.ident = ident
        self.parts = []
        self.proxy = None
        self.flat = "f" in kind
        self.default = "d" in kind
        name = ident.replace("r#", "")
        if "r" in kind:
            name = RENAMES[n % len(RENAMES)][pos]
            self.parts.append("rename = " + q(name))
        elif ident.startswith("r#"):
            name = None  # not declared
        self.name = name
        if self.default:
            self.parts.append("default")
        if self.flat:
            self.parts.append("flatten")
        ty = PLAIN[(n + pos) % len(PLAIN)]
        if "o" in kind:
            ty = ["Option<u8>", "Option<String>", "Option<Unit>", "Option<Vec<bool>>"][(n + pos) % 4]
        if self.flat:
            ty = ("Sub%d" if "e" not in kind else "Alt%d") % pos
        self.wire = ty
        if "x" in kind:
            self.proxy = ty
            self.parts.append("proxy = " + ty)
            ty = "Made<%s>" % ty
        self.ty = ty

    def ok(self):
        return self.name is not None

    def decl(self, style, vis):
        return "    %s%s%s: %s,\n" % (attrs(self.parts, style).replace("\n", "\n    "), vis, self.ident, self.ty)

    def desc(self):
        if self.flat:
            return "fields.push(field(\"\", Ty::Flat(Box::new(<%s>::ty()))));" % self.ty
        if self.default:
            return "fields.push(defaulted(%s, <%s>::ty(), <%s>::default().g()));" % (q(self.name), self.ty, self.ty)
        return "fields.push(field(%s, <%s>::ty()));" % (q(self.name), self.ty)

    def node(self, access):
        if self.flat:
            return "nodes.extend(nodes_of(%s.node()));" % access
        return "nodes.push((%s, %s.node()));" % (q(self.name), access)

    def g(self, access):
        if self.flat:
            return "gs.extend(gs_of(%s.g()));" % access
        return "gs.push(%s.g());" % access


def emit(name, definition, body, writes):
    derives = "Deserialize, Debug, PartialEq, Clone" + (", Serialize" if writes else "")
    out.append("#[derive(%s)]\n%s\n%s" % (derives, definition, body))
    rows.append("row!(%s, %s, %s)" % (name, "true" if writes else "false", q("#[derive(%s)]\n%s" % (derives, definition))))


def struct(kinds, n):
    idents = IDENTS[n % len(IDENTS)]
    fields = [Field(k, i, n, idents[i]) for i, k in enumerate(kinds)]
    if not all(f.ok() for f in fields):
        idents = IDENTS[1]
        fields = [Field(k, i, n, idents[i]) for i, k in enumerate(kinds)]
    names = [f.name for f in fields if not f.flat]
    if len(set(names)) != len(names):
        idents = ["p0", "p1", "p2", "p3"]
        fields = [Field(k, i, n, idents[i]) for i, k in enumerate(kinds)]
    name = "S%d" % len(rows)
    vis = ["pub ", "", "pub(crate) "][n % 3]
    definition = "pub struct %s {\n%s}" % (name, "".join(f.decl(n + i, vis) for i, f in enumerate(fields)))
    body = """impl Item for %(name)s {
    fn ty() -> Ty {
        let mut fields = Vec::new();
        %(desc)s
        Ty::Struct(fields)
    }
    fn g(&self) -> G {
        let mut gs = Vec::new();
        %(g)s
        G::Seq(gs)
    }
    fn node(&self) -> Node {
        let mut nodes = Vec::new();
        %(node)s
        Node::Struct(Some("%(name)s"), nodes)
    }
    fn gen(ch: &mut Ch) -> Self {
        %(name)s { %(gen)s }
    }
}
""" % {
        "name": name,
        "desc": "\n        ".join(f.desc() for f in fields),
        "g": "\n        ".join(f.g("self." + f.ident) for f in fields),
        "node": "\n        ".join(f.node("self." + f.ident) for f in fields),
        "gen": ", ".join("%s: Item::gen(ch)" % f.ident for f in fields),
    }
    emit(name, definition, body, not any(f.proxy for f in fields))


KINDS = ["p", "r", "d", "o", "od", "rd", "f", "fe", "x", "xr", "xd", "xf", "xo", "xrd"]
struct([], 0)
n = 0
for k in KINDS:
    for s in range(4 if thorough else 2):
        struct([k], n)
        n += 1
for c in itertools.product(KINDS, repeat=2):
    struct(list(c), n)
    n += 1
three = ["p", "r", "d", "o", "f", "fe", "x", "rd"] if thorough else ["r", "d", "o", "f", "x"]
for c in itertools.product(three, repeat=3):
    struct(list(c), n)
    n += 1
for c in itertools.product(["r", "d", "f"], repeat=4):
    if thorough or n % 3 == 0:
        struct(list(c), n)
    n += 1

# ---------------------------------------------------------------- enums

VARIANTS = ["Value", "Ok", "B", "Names"]
VARIANT_RENAMES = [["B", "Value", "Names", "Ok"], ["", "é\"\\", "value", "0"], ["ok", "OK", "Ok_", "O"], ["a", "ab", "abc", "b"]]
SHAPES = ["unit", "named", "many", "empty", "tuple", "struct", "nested"]


class Variant:
    def __init__(self, shape, attr, pos, n):
        self.shape = shape
        self.ident = VARIANTS[pos]
        self.name = self.ident
        self.parts = []
        self.reindex = None
        self.disc = None
        if "r" in attr:
            self.name = VARIANT_RENAMES[n % len(VARIANT_RENAMES)][pos]
            self.parts.append("rename = " + q(self.name))
        if "i" in attr:
            self.reindex = [7, 0, 300, 20][(n + pos) % 4] + pos
            self.parts.append("reindex = %d" % self.reindex)
        if "=" in attr:
            self.disc, self.disc_src = [(10, "10"), (0x20, "0x20"), (100, "1_00"), (5, "5")][(n + pos) % 4]
        self.fields = []
        if shape == "named":
            self.fields = [Field(["p", "r", "d", "o"][(n + pos) % 4], pos, n, "value")]
        elif shape == "many":
            self.fields = [Field("r", 0, n, "st"), Field("f", pos, n, "inner"), Field("d", 1, n, "index")]
        elif shape in ("tuple", "struct", "nested"):
            f = Field("fe" if shape == "nested" else "f", pos, n, "inner")
            f.parts = []
            self.fields = [f]
            self.parts.insert(n % 2, "transparent")

    def decl(self, style):
        a = attrs(self.parts, style).replace("\n", "\n    ")
        d = " = " + self.disc_src if self.disc is not None else ""
        if self.shape == "unit":
            body = ""
        elif self.shape in ("tuple", "nested"):
            body = "(%s)" % self.fields[0].ty
        else:
            body = " {\n%s    }" % "".join("    " + f.decl(0, "").replace("\n    ", "\n        ") for f in self.fields)
        return "    %s%s%s%s,\n" % (a, self.ident, body, d)

    def pattern(self):
        if self.shape == "unit":
            return self.ident
        if self.shape in ("tuple", "nested"):
            return self.ident + "(x0)"
        return "%s { %s }" % (self.ident, ", ".join("%s: x%d" % (f.ident, i) for i, f in enumerate(self.fields)))

    def make(self):
        if self.shape == "unit":
            return self.ident
        if self.shape in ("tuple", "nested"):
            return self.ident + "(Item::gen(ch))"
        return "%s { %s }" % (self.ident, ", ".join("%s: Item::gen(ch)" % f.ident for f in self.fields))


def enum(shapes, attr, rename, tag, n):
    vs = [Variant(s, a, i, n) for i, (s, a) in enumerate(zip(shapes, attr))]
    if len(set(v.name for v in vs)) != len(vs):
        for i, v in enumerate(vs):
            if "r" in attr[i]:
                v.parts = [p for p in v.parts if not p.startswith("rename")]
                v.name = "renamed %d" % i
                v.parts.append("rename = " + q(v.name))
    # The running index
    index = 0
    seen = set()
    for v in vs:
        if v.disc is not None:
            index = v.disc
        if index in seen:
            return  # not accepted by the compiler
        seen.add(index)
        v.index = v.reindex if v.reindex is not None else index
        index += 1
    if len(set(v.index for v in vs)) != len(vs):
        return  # ambiguous
    for v in vs:
        names = [f.name for f in v.fields if not f.flat]
        if len(set(names)) != len(names) or ("type" if tag is None else tag) in names:
            for f in v.fields:
                if f.name == ("type" if tag is None else tag) or names.count(f.name) > 1:
                    f.parts = [p for p in f.parts if not p.startswith("rename")]
                    f.name = f.ident
    name = "E%d" % len(rows)
    max_index = max(v.index for v in vs)
    parts = []
    if tag is not None:
        parts.append("tag = " + q(tag))
    if rename is not None:
        parts.append("rename = " + q(rename))
    is_tag = tag is None and all(v.shape == "unit" for v in vs)
    repr_ = "#[repr(u16)]\n" if any(v.disc is not None for v in vs) and not all(v.shape == "unit" for v in vs) else ""
    definition = "%s%spub enum %s {\n%s}" % (repr_, attrs(parts, n), name, "".join(v.decl(n + i) for i, v in enumerate(vs)))
    make = ",\n            ".join("%s => %s::%s" % (i if i + 1 < len(vs) else "_", name, v.make()) for i, v in enumerate(vs))
    if is_tag:
        body = """impl Item for %(name)s {
    fn ty() -> Ty {
        Ty::Names(vec![%(names)s])
    }
    fn g(&self) -> G {
        G::Tag(match self { %(gs)s })
    }
    fn node(&self) -> Node {
        match self { %(nodes)s }
    }
""" % {
            "name": name,
            "names": ", ".join("(%s, %d)" % (q(v.name), v.index) for v in vs),
            "gs": ", ".join("%s::%s => %d" % (name, v.ident, v.index) for v in vs),
            "nodes": ", ".join("%s::%s => Node::Tag(%d, %d, %s)" % (name, v.ident, max_index, v.index, q(v.name)) for v in vs),
        }
    else:
        tag_name = q("type" if tag is None else tag)
        body = """impl Item for %(name)s {
    fn ty() -> Ty {
        Ty::Enum { tag: %(tag)s, variants: vec![%(variants)s] }
    }
    fn g(&self) -> G {
        let mut gs = Vec::new();
        match self {
            %(gs)s
        }
        G::Seq(gs)
    }
    fn node(&self) -> Node {
        let mut nodes = Vec::new();
        match self {
            %(nodes)s
        }
        Node::Struct(Some(%(struct)s), nodes)
    }
""" % {
            "name": name,
            "tag": tag_name,
            "struct": q(rename if rename is not None else name),
            "variants": ", ".join(
                "Variant { name: %s, index: %d, fields: { let mut fields = Vec::new(); %s fields } }"
                % (q(v.name), v.index, " ".join(f.desc() for f in v.fields))
                for v in vs
            ),
            "gs": "\n            ".join(
                "%s::%s => { gs.push(G::Tag(%d)); %s }" % (name, v.pattern(), v.index, " ".join(f.g("x%d" % i) for i, f in enumerate(v.fields))) for v in vs
            ),
            "nodes": "\n            ".join(
                "%s::%s => { nodes.push((%s, Node::Tag(%d, %d, %s))); %s }"
                % (name, v.pattern(), tag_name, max_index, v.index, q(v.name), " ".join(f.node("x%d" % i) for i, f in enumerate(v.fields)))
                for v in vs
            ),
        }
    body += """    fn gen(ch: &mut Ch) -> Self {
        match ch.choose(%d) {
            %s
        }
    }
}
""" % (len(vs), make)
    emit(name, definition, body, True)


ATTRS = ["", "r", "i", "ri", "="]
n = 0
for k in range(1, 4):
    for a in itertools.product(ATTRS, repeat=k):
        enum(["unit"] * k, a, [None, "Renamed"][n % 2], None, n)
        n += 1
        if k < 3 or thorough:
            enum(["unit"] * k, a, [None, "Renamed"][n % 2], ["type", "kind", "é\""][n % 3], n)
            n += 1
for a in itertools.product(["", "i", "="], repeat=4):
    enum(["unit"] * 4, a, None, None, n)
    n += 1
for s in SHAPES[1:]:
    for a in ATTRS:
        for rename, tag in [(None, None), ("Renamed", None), (None, "kind"), ("Re \"named\"", "")]:
            enum([s], [a], rename, tag, n)
            n += 1
pairs = list(itertools.product(ATTRS, repeat=2))
for s in itertools.product(SHAPES, repeat=2):
    if s == ("unit", "unit"):
        continue
    for i in range(len(pairs) if thorough else 5):
        a = pairs[i if thorough else (n * 7) % len(pairs)]
        enum(s, a, [None, None, "Renamed"][n % 3], [None, "kind", None, ""][n % 4], n)
        n += 1
triples = list(itertools.product(ATTRS, repeat=3))
for s in itertools.product(SHAPES if thorough else ["unit", "named", "tuple", "many"], repeat=3):
    if s == ("unit",) * 3:
        continue
    for i in range(3 if thorough else 1):
        enum(s, triples[(n * 31) % len(triples)], [None, None, "Renamed"][n % 3], [None, "kind", None, ""][n % 4], n)
        n += 1

# In parts, to be compiled at the same time
for part in range(PARTS):
    text = "// Written by tools/gen_derived.py\n" + "\n".join(out[part::PARTS])
    text += "\npub fn generated() -> Vec<Row> {\n    vec![\n"
    text += "".join("        %s,\n" % r for r in rows[part::PARTS]) + "    ]\n}\n"
    path = "%s/c11_%s_%d.rs" % (sys.argv[2], sys.argv[1], part)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
print(len(rows), "types")
