#!/usr/bin/env python3
"""Writes harness/src/shapes_gen.rs: the catalogue of query shapes the checks use."""
import itertools, os
T = "ABCDE"
out, seen = [], set()
def ty(t, m): return ("&mut " if m else "&") + {"D": "Dz"}.get(t, t)
def add(cls, s):
    if s not in seen:
        seen.add(s); out.append((cls, s))
def tup(parts): return "(" + ",".join(parts) + ")"
# singles
for t in T:
    for m in (0, 1): add("Single", ty(t, m))
# pairs
for a, b in itertools.permutations("ABC", 2):
    for ma, mb in itertools.product((0, 1), repeat=2): add("Tuple", tup([ty(a, ma), ty(b, mb)]))
for a, b in ("AD", "DA", "DE", "EB", "CE", "EA"):
    add("Tuple", tup([ty(a, 0), ty(b, 1)])); add("Tuple", tup([ty(a, 1), ty(b, 0)]))
# triples
for ms in itertools.product((0, 1), repeat=3): add("Tuple", tup([ty(t, m) for t, m in zip("ABC", ms)]))
for p in itertools.permutations("ABC"):
    add("Tuple", tup([ty(t, 0) for t in p])); add("Tuple", tup([ty(t, i % 2) for i, t in enumerate(p)]))
add("Tuple", tup([ty("D", 0), ty("A", 1), ty("E", 0)])); add("Tuple", tup([ty("E", 1), ty("D", 1), ty("B", 1)]))
# four and five
def rot(s): return [s[i:] + s[:i] for i in range(len(s))]
for s in ("ABCD", "ABCDE"):
    n = len(s)
    for r in rot(s): add("Tuple", tup([ty(t, 0) for t in r]))
    for ms in ([1]*n, [i % 2 for i in range(n)], [(i+1) % 2 for i in range(n)]):
        add("Tuple", tup([ty(t, m) for t, m in zip(s, ms)]))
    for i in range(n):
        add("Tuple", tup([ty(t, j == i) for j, t in enumerate(s)]))
add("Tuple", tup([ty(t, 0) for t in "EDCB"])); add("Tuple", tup([ty(t, 1) for t in "EDCBA"]))
# nested
for s in ("(&A,(&B,&C))", "((&A,&B),&C)", "(&mut A,(&B,&mut C))", "((&A,&mut B),&C)", "((&A,&B),(&C,&Dz))",
          "((&mut A,&B),(&mut C,&Dz))", "(&A,(&B,(&C,&Dz)))", "(((&A,&B),&C),&Dz)", "((&A,&B,&C),&mut Dz)",
          "(&mut A,(&B,&C,&Dz))", "((&A,&B),&C,(&Dz,&E))", "(&A,((&B,&mut C),&Dz,&mut E))", "((&A,&B,&C,&Dz),&E)",
          "(&E,(&Dz,&C,&B,&A))", "((&E,&B),&mut A)", "(&A,&A)", "(&A,&B,&A)", "((&A,&B),(&B,&C))"): add("Tuple", s)
# without
for a, b in itertools.permutations("ABC", 2):
    for ma, mb in itertools.product((0, 1), repeat=2):
        add("Without", f"({ty(a,ma)},Without<{ty(b,mb)}>)")
        add("Without", f"(Without<{ty(b,mb)}>,{ty(a,ma)})")
for s in ("(&A,Without<&Dz>)", "(Without<&A>,&Dz)", "(Without<&E>,&mut A)", "(&E,Without<&A>)",
          "(&A,Without<(&B,&C)>)", "(Without<(&B,&C)>,&A)", "(Without<(&B,&mut C)>,&mut A)", "(&mut C,Without<(&mut A,&B)>)",
          "(Without<&A>,(&B,&C))", "((&A,&B),Without<&C>)", "((&mut A,&B),Without<&mut C>)", "(Without<&mut C>,(&A,&mut B))",
          "(Without<&A>,(&B,Without<&C>))", "((&A,Without<&B>),Without<&C>)", "(Without<&C>,(Without<&B>,&A))",
          "(Without<&B>,(&mut A,Without<&C>))", "((Without<&B>,&A),Without<&C>)",
          "(&C,Without<(&A,Without<&B>)>)", "(Without<(Without<&A>,&B)>,&C)", "(Without<(&A,Without<&B>)>,&C)",
          "(&A,Without<(Without<&B>,&C)>)", "(&A,Without<&A>)", "(Without<&A>,&A)",
          "((&A,Without<&B>),&C)", "(&C,(&A,Without<&B>))", "(&mut C,(Without<&B>,&mut A))", "((Without<&A>,&B),(&C,Without<&Dz>))",
          "(&A,(&B,Without<&C>),&Dz)", "((Without<&A>,&B),&C,&Dz)", "(&A,&B,(&C,Without<&Dz>),&E)",
          "(Without<(&A,&B,&C)>,&Dz)", "(&Dz,Without<(&A,&B,&C)>)", "((&A,&B,&C),Without<(&Dz,&E)>)"): add("Without", s)
# groups
KN = ("FullOwning", "PartialOwning", "NonOwning")
for k in KN:
    for a, b in itertools.permutations("ABC", 2):
        for ma, mb in itertools.product((0, 1), repeat=2): add("Group", f"{k}<{ty(a,ma)},{ty(b,mb)}>")
    for a, b in ("AD", "DE", "EA"):
        add("Group", f"{k}<{ty(a,0)},{ty(b,0)}>"); add("Group", f"{k}<{ty(a,1)},{ty(b,1)}>")
add("Group", "NonOwning<&A,&A>")
for k in KN:
    g, gm = f"{k}<&A,&B>", f"{k}<&mut A,&mut B>"
    add("Tuple", f"({g},&C)"); add("Tuple", f"(&C,{g})"); add("Tuple", f"({gm},&mut C)"); add("Tuple", f"(&mut C,{gm})")
    add("Tuple", f"({g},&C,&Dz)"); add("Tuple", f"(&C,{k}<&mut A,&B>,&Dz)")
    add("Without", f"({g},Without<&C>)"); add("Without", f"(Without<&C>,{gm})")
    add("Without", f"(&C,Without<{g}>)"); add("Without", f"(Without<{g}>,&C)"); add("Without", f"(Without<{gm}>,&mut C)")
    add("Without", f"(&A,Without<{g}>)"); add("Without", f"(Without<{g}>,&B)")
add("Tuple", "(FullOwning<&A,&B>,NonOwning<&B,&C>)"); add("Tuple", "(NonOwning<&B,&C>,FullOwning<&A,&B>)")
add("Tuple", "(PartialOwning<&A,&B>,PartialOwning<&C,&B>)"); add("Without", "(FullOwning<&A,&B>,Without<NonOwning<&B,&C>>)")
add("Without", "(Without<PartialOwning<&C,&B>>,PartialOwning<&A,&B>)"); add("Without", "(NonOwning<&A,&B>,Without<NonOwning<&B,&C>>)")
with open(os.path.join(os.path.dirname(__file__), "..", "harness", "src", "shapes_gen.rs"), "w") as f:
    f.write("// Written by tools/gen_shapes.py\nshapes! {\n")
    for c, s in out: f.write(f"    {c} {s};\n")
    f.write("}\n")
print(len(out))
