#!/usr/bin/env python3
"""Writes a header with random triples of types for the expr_*_t* worlds (sim/triples.hpp is
   gen_triples.py 7000 6 12).   gen_triples.py <seed> <triples> <sets>      to stdout"""
import random, re, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_pairs import a_type, ST


def limits(t):
    m = re.match(r"(?:BI|Full)<(\w+)>", t)
    if m:
        return ST[m.group(1)]
    a, b = re.findall(r"-?\d{1,20}(?=U?LL)", t)[-2:] if "LL - 1" not in t else (None, None)
    if a is None:
        n = re.findall(r"\(?(-?\d+)LL - 1\)|(-?\d+)U?LL", t); v = [int(x) - 1 if x else int(y) for x, y in n][-2:]
        return v[0], v[1]
    return int(a), int(b)


def main():
    seed, count, sets = map(int, sys.argv[1:4])
    print("// generated by tools/gen_triples.py %s" % " ".join(sys.argv[1:]))
    for k in range(sets):
        r = random.Random(seed + k); types, names, tr = [], [], []
        while len(tr) < count:
            t = [a_type(r, True), a_type(r, True), a_type(r, True)]
            if r.random() < .25:
                s = r.choice(list(ST)); t[2] = "BI<%s>" % s, "b_" + s.lower()
            ls = [limits(x[0]) for x in t]
            narrow = any(lo > 0 or hi < 1 for lo, hi in ls)
            if sum(lo == hi for lo, hi in ls) > 1:
                continue
            if r.random() < .25:    # two of one type
                t[1] = t[0]; ls[1] = ls[0]
            prods = [x * y for x in ls[0] for y in ls[1]]
            if min(prods) >= 2**63 or max(prods) < -2**63:      # cannot be converted to 64 bits: ill-formed
                continue
            idx = []
            for x, y in t:
                if x not in types:
                    types.append(x); names.append('"%s"' % y)
                idx.append(types.index(x))
            tr.append("Tr<%d, %d, %d, %s>" % (*idx, "true" if narrow else "false"))
        print("#if TRIPLE_SET == %d" % (k + 1))
        print("#define TRIPLE_TYPES " + ", \\\n    ".join(types))
        print("#define TRIPLE_NAMES " + ", ".join(names))
        print("#define TRIPLES " + ", ".join(tr))
        print("#endif")


main()
