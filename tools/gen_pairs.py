#!/usr/bin/env python3
"""Writes a header with random pairs of types for the *_pairs worlds (sim/pairs.hpp is
   gen_pairs.py 5000 24 20).   gen_pairs.py <seed> <pairs> [<sets>]        to stdout"""
import random, sys
ST = {"I8": (-2**7, 2**7 - 1), "U8": (0, 2**8 - 1), "I16": (-2**15, 2**15 - 1), "U16": (0, 2**16 - 1),
      "I32": (-2**31, 2**31 - 1), "U32": (0, 2**32 - 1), "I64": (-2**63, 2**63 - 1), "U64": (0, 2**64 - 1)}


def lit(v, unsigned):
    if unsigned:
        return "%dULL" % v
    return "(-9223372036854775807LL - 1)" if v == -2**63 else "%dLL" % v


def point(r, lo, hi):
    k = r.random()
    if k < .3:
        v = r.choice([-1, 0, 1, 2, 7, 8, 15, 31, 32, 63, 64, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**32, 2**63 - 1, -2, -128, -2**31, -2**63])
    elif k < .5:        # around small powers of two
        v = r.choice([-1, 1, 1]) * 2 ** r.randrange(0, 12) + r.choice([0, 0, 0, -1, 1])
    elif k < .7:
        v = r.choice([-1, 1]) * (2 ** r.randrange(0, 64) + r.randrange(-2, 3))
    elif k < .85:
        v = r.choice([lo, hi]) + r.randrange(-3, 4)
    else:
        v = r.randrange(-300, 300)
    return min(max(v, lo), hi)


def a_type(r, safe):
    k = r.random()
    if not safe and k < .25:
        s = r.choice(list(ST)); return "BI<%s>" % s, "b_" + s.lower()
    if not safe and k < .45:
        if r.random() < .6:
            v = point(r, *ST["I64"]); return "LIT<%s>" % lit(v, False), "lit%d" % v
        v = point(r, *ST["U64"]); return "ULIT<%s>" % lit(v, True), "ulit%d" % v
    if k < .55:
        s = r.choice(list(ST)); return "Full<%s>" % s, s.lower()
    s = r.choice(list(ST)); lo, hi = ST[s]
    a = point(r, lo, hi)
    b = a + r.choice([0, 1, 2, 5, 10, 100, 1000]) if r.random() < .35 else point(r, lo, hi)
    a, b = min(a, b), min(max(a, b), hi)
    if r.random() < .5:
        k = "SR" if s[0] == "I" else "UR"
        return "%s<%s, %s>" % (k, lit(a, s[0] == "U"), lit(b, s[0] == "U")), "%s[%d,%d]" % (k.lower(), a, b)
    return "SB<%s, %s(%s), %s(%s)>" % (s, s, lit(a, s[0] == "U"), s, lit(b, s[0] == "U")), "%s[%d,%d]" % (s.lower(), a, b)


def main():
    seed, pairs, sets = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
    print("// generated by tools/gen_pairs.py %s" % " ".join(sys.argv[1:]))
    for k in range(max(1, sets)):
        r = random.Random(seed + k); t, n = [], []
        for i in range(pairs):
            for x, y in [a_type(r, True), a_type(r, False)]:
                t.append(x); n.append('"%s"' % y)
        if sets:
            print("#if PAIR_SET == %d" % (k + 1))
        print("#define PAIR_TYPES " + ", \\\n    ".join(", ".join(t[i:i + 2]) for i in range(0, len(t), 2)))
        print("#define PAIR_NAMES " + ", \\\n    ".join(", ".join(n[i:i + 2]) for i in range(0, len(n), 2)))
        if sets:
            print("#endif")


if __name__ == "__main__":
    main()
