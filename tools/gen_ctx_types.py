#!/usr/bin/env python3
"""Writes mc/shared/ctx_types_list.rs: compositions around values with a user codec."""
base = ["Probe", "NullProbe", "Part", "UnitProbe"]
wrap = ["Option<{}>", "Vec<{}>", "[{}; 0]", "[{}; 1]", "[{}; 3]", "({}, u8)", "(u8, {})", "(bool, {}, u8)", "({0}, {0})", "({0}, {0}, {0})",
        "Plain<{}>", "Inner<{}>", "Flat<{}>", "Tagged<{}>", "Def<{}>", "Multi<{}>", "Choice<{}>"]
types = list(base)
types += [w.format(b) for w in wrap for b in base]
mid = ["Option<{}>", "Vec<{}>", "[{}; 3]", "({0}, {0})", "(u8, {})", "({0}, {0}, {0})", "Plain<{}>", "Flat<{}>", "Tagged<{}>", "Def<{}>", "Multi<{}>", "Choice<{}>"]
types += [w1.format(w2.format("Probe")) for w1 in mid for w2 in mid]
tri = ["Option<{}>", "Vec<{}>", "Flat<{}>", "Choice<{}>"]
few = ["Option<{}>", "Vec<{}>", "({0}, {0})", "Flat<{}>", "Tagged<{}>", "Def<{}>"]
types += [w1.format(w2.format("NullProbe")) for w1 in few for w2 in few]
types += [w1.format(w2.format(w3.format("Probe"))) for w1 in tri for w2 in tri for w3 in tri]
seen = list(dict.fromkeys(types))
with open("mc/shared/ctx_types_list.rs", "w") as f:
    f.write("// Written by tools/gen_ctx_types.py\nmacro_rules! for_types {\n    ($e:ident) => {\n        vec![\n")
    for t in seen:
        f.write("            $e!(%s),\n" % t)
    f.write("        ]\n    };\n}\n")
print(len(seen))
