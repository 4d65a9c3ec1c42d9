#!/usr/bin/env python3
"""Writes mc/shared/types_list.rs: the table of types used by the value-based explorers."""
ints = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
nz = ["NonZero" + t.upper() for t in ints]
bases = ["bool"] + ints + nz + ["f32", "f64", "char", "String", "()", "Unit"]
few = ["bool", "i64", "NonZeroU8", "f32", "char", "String", "()", "Unit"]
wrap = ["Option<{}>", "Vec<{}>", "[{}; 0]", "[{}; 1]", "[{}; 2]", "({}, u8)", "(bool, {}, u8)", "(u8, Option<bool>, {})",
        "Plain<{}>", "Flat<{}>", "Tagged<{}>", "Def<{}>"]
wrap2 = ["Option<{}>", "Vec<{}>", "[{}; 2]", "({}, u8)", "Plain<{}>", "Flat<{}>", "Tagged<{}>", "Def<{}>"]
ok = lambda w, b: not (w.startswith("Def") and "NonZero" in b)
types = list(bases)
types += [w.format(b) for w in wrap for b in few if ok(w, b)]
types += [w1.format(w2.format(b)) for w1 in wrap2 for w2 in wrap2 for b in ["u8"]]
types += [w1.format(w2.format(b)) for w1 in ["Option<{}>", "Vec<{}>"] for w2 in wrap2 for b in ["String", "Unit"]]
types += ["Option<Option<Option<u8>>>", "Option<Option<Option<()>>>", "Vec<Vec<Vec<u8>>>", "Option<Vec<Option<String>>>",
          "Vec<Option<Option<bool>>>", "Option<Option<Option<Option<Unit>>>>", "Tagged<Tagged<Tagged<u8>>>", "Flat<Flat<Flat<u8>>>",
          "Def<Option<Option<u8>>>", "Option<Def<Option<String>>>", "((u8, u8), (String, bool))", "[[[u8; 1]; 2]; 1]", "Vec<(String, Option<Tagged<u8>>)>",
          "Option<NonZeroU8>", "Vec<NonZeroI64>", "(String, char, f32)", "[String; 3]", "[u8; 5]", "Mixed", "Option<Mixed>", "Tree", "Option<Tree>", "Text", "Option<Text>"]
seen = list(dict.fromkeys(types))
with open("mc/shared/types_list.rs", "w") as f:
    f.write("// Written by tools/gen_types.py\nmacro_rules! for_types {\n    ($e:ident) => {\n        vec![\n")
    for t in seen:
        f.write("            $e!(%s),\n" % t)
    f.write("        ]\n    };\n}\n")
print(len(seen))
