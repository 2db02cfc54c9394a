#!/usr/bin/env python3
"""Writes src/bin/mc_derive/shapes.rs: one derived struct per enumerated field layout."""
import itertools, os
KINDS = {  # name: (rust type, response?)
    "I": ("i128", 0), "U": ("u128", 0), "B": ("bool", 0), "S": ("String", 0), "Buf": ("Vec<u8>", 0),
    "VS": ("Vec<String>", 0), "OI": ("Option<i128>", 0), "OU": ("Option<u128>", 0), "OS": ("Option<String>", 0),
    "RI": ("i128", 1), "RU": ("u128", 1), "N1": ("N1", 0), "N2": ("N2", 0),
}
QUAL = ["QBuf", "QVS", "QOI", "QOU", "QOS", "RF", "N3", "G1"]
ALLK = dict(KINDS, QBuf=("std::vec::Vec<u8>", 0), QVS=("::std::vec::Vec<String>", 0), QOI=("std::option::Option<i128>", 0),
            QOU=("core::option::Option<u128>", 0), QOS=("::core::option::Option<String>", 0), RF=("i128", 2), N3=("N3", 0), G1=("G1", 0))
shapes = []  # list of [(field ident, key, kind)]
names = list(KINDS)
LONG = "k" * 128
for k in names:  # one field: key equal to, and different from, the identifier; long and odd keys
    shapes += [[("f0", "f0", k)], [("f0", "some-key", k)], [("f0", LONG, k)], [("type_", "type", k)]]
single = len(shapes)
for a, b in itertools.product(names, names):
    shapes.append([("f0", "p", a), ("f1", "q", b)])
    shapes.append([("p", "q", a), ("q", "p", b)])      # keys crossed with identifiers
pair = len(shapes)
for a, b in itertools.product(names, names):          # both fields read one key
    shapes.append([("f0", "p", a), ("f1", "p", b)])
same = len(shapes)
for a in names:                                       # keys in prefix relation
    shapes.append([("a", "k-1", a), ("b", "k", a), ("c", "k-11", a)])
triple = len(shapes)
allf = [(f"f{i}", f"key-{i}", k) for i, k in enumerate(names)]
shapes.append(allf)
shapes.append(list(reversed(allf)))
whole = len(shapes)
ODD = ["a", "A", "a_b", "a-b", "A-b", "a.b", "a b", "a?", "!", "0", "1", "-", "_", "", "k1", "key", "value", "tuple", "list", "x", "r#type", "\u00e9", "self",
       "response", "a" * 64, "a" * 127, "a" * 127 + "b", "a'b", "{}", "{0}", "%s", "ok", "none"]
for n, key in enumerate(ODD):                         # odd keys
    for k in ("I", "B", "OS", "N1"):
        shapes.append([("f0", key, k)])
for key, k in itertools.product(["q", "some-key"], QUAL):  # paths written out, nested deeper
    shapes.append([("f0", key, k)])
odd = len(shapes)
IDENTS = ["tuple", "value", "x", "list", "any", "key", "err", "r#type", "r#match", "_a", "Tuple", "a1"]
for k in ("I", "B", "S", "Buf", "VS", "OI", "OS", "RU", "N2"):  # many equally typed fields, awkward identifiers
    shapes.append([(i, f"key{n}", k) for n, i in enumerate(IDENTS)])
many = len(shapes)
out = ["// Written by gen_derive.py.", "use super::*;", "",
       "#[derive(FromTuple)]\npub struct N1 {\n    #[stacks(key = \"n0\")]\n    pub v: i128,\n}",
       "#[derive(FromTuple)]\npub struct N2 {\n    #[stacks(key = \"x\")]\n    pub x: bool,\n    #[stacks(key = \"y\")]\n    pub y: N1,\n}",
       "#[derive(FromTuple)]\npub struct N3 {\n    #[stacks(key = \"n2\")]\n    pub a: N2,\n    #[stacks(key = \"n1\")]\n    pub b: N1,\n}",
       "#[derive(FromTuple)]\npub struct Gen<const N: usize> {\n    /// documented\n    #[stacks(key = \"g\")]\n    #[allow(dead_code)]\n    pub g: Option<u128>,\n}\npub type G1 = Gen<3>;", ""]
table = []
def rs(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
for n, s in enumerate(shapes):
    fs = "".join(f"    #[stacks(key = {rs(key)}{['', ', response', ', response = false'][ALLK[k][1]]})]\n    {i}: {ALLK[k][0]},\n" for i, key, k in s)
    out.append(f"#[derive(FromTuple)]\nstruct Z{n} {{\n{fs}}}")
    out.append(f"fn z{n}(t: Tuple) -> Result<Vec<Out>, String> {{\n    conv(Z{n}::try_from(t), |s| vec![{', '.join(f's.{i}.into()' for i, _, _ in s)}])\n}}")
    table.append(f"    (&[{', '.join(f'({rs(key)}, K::{k})' for _, key, k in s)}], z{n}),")
out.append("pub type Shape = (&'static [(&'static str, K)], fn(Tuple) -> Result<Vec<Out>, String>);")
out.append("pub static SHAPES: &[Shape] = &[\n" + "\n".join(table) + "\n];")
for nm, v in [("SINGLE", single), ("PAIR", pair), ("SAME", same), ("TRIPLE", triple), ("WHOLE", whole), ("ODD", odd)]:
    out.append(f"pub const {nm}: usize = {v};")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/bin/mc_derive/shapes.rs"), "w").write("\n".join(out) + "\n")
