#!/usr/bin/env python3
"""Writes ctt_cases_1.inc ... ctt_cases_N.inc into DIR: compile-time manipulations whose resulting types the engine judges (see lib_ctt.cpp).
   usage: ctt_gen.py DIR SEED SLICES PER_SLICE
   Division by something that vanishes identically is left out (the library refuses it); integrands are polynomials in the integration
   variable and coefficients are taken from expressions whose denominators do not hold the factor."""
import os, random, sys

PRIME = (1 << 61) - 1
VARS = ["X", "Y", "Z"]


class Reject(Exception):
    pass


def c(v):
    return ("c", v)


def v(n):
    return ("v", n)


X, Y, Z = v("X"), v("Y"), v("Z")


def mul(*a):
    r = a[0]
    for b in a[1:]:
        r = ("*", r, b)
    return r


def typ(t):
    return "K<%d>" % t[1] if t[0] == "c" else t[1] if t[0] == "v" else "B<'%s',%s,%s>" % (t[0], typ(t[1]), typ(t[2]))


def size(t):
    return 1 if t[0] in "cv" else 1 + size(t[1]) + size(t[2])


def has(t, n):
    return t == ("v", n) if t[0] in "cv" else has(t[1], n) or has(t[2], n)


def denhas(t, n):
    return False if t[0] in "cv" else (t[0] == "/" and has(t[2], n)) or denhas(t[1], n) or denhas(t[2], n)


def degree(t, n):
    """upper bound"""
    if t[0] in "cv":
        return 1 if t == ("v", n) else 0
    a, b = degree(t[1], n), degree(t[2], n)
    return max(a, b) if t[0] in "+-" else a + b if t[0] == "*" else a


def terms(t):
    """how many terms the expanded form has, about"""
    if t[0] in "cv":
        return 1
    a, b = terms(t[1]), terms(t[2])
    return a + b if t[0] in "+-" else a * b if t[0] == "*" else a


def subterms(t):
    return [t] if t[0] in "cv" else [t] + subterms(t[1]) + subterms(t[2])


def replace(t, a, b):
    return b if t == a else t if t[0] in "cv" else (t[0], replace(t[1], a, b), replace(t[2], a, b))


def value(t, p):
    """modulo a prime; rejects vanishing denominators"""
    if t[0] == "c":
        return t[1] % PRIME
    if t[0] == "v":
        return p[t[1]]
    a, b = value(t[1], p), value(t[2], p)
    if t[0] == "+":
        return (a + b) % PRIME
    if t[0] == "-":
        return (a - b) % PRIME
    if t[0] == "*":
        return a * b % PRIME
    if b == 0:
        raise Reject()
    return a * pow(b, PRIME - 2, PRIME) % PRIME


POINT = {n: pow(3, 1000 + 77 * i, PRIME) for i, n in enumerate(VARS + ["U"])}


def ok(t):
    value(t, POINT)
    return t


def small(t, lim=10 ** 15):
    """numerator and denominator of constant parts stay far from overflow"""
    def mag(t):
        if t[0] == "c":
            return abs(t[1]) + 1
        if t[0] == "v":
            return 2
        a, b = mag(t[1]), mag(t[2])
        return 2 * a * b
    return mag(t) < lim


def row(kind, var, src, call, a=None, b=None):
    tag = lambda t: "TI(%s)" % (typ(t) if t is not None else "N")
    return "{'%s',%d,%s,%s,%s,TI(decltype(%s))}," % (kind, var, tag(a), tag(b), tag(src), call)


def make(r, kind, t, arg=None):
    """one row; arg: what else goes into the call"""
    ok(t)
    if size(t) > 60 or not small(t):
        raise Reject()
    o = typ(t) + "()"
    if kind in "XPCTI" and terms(t) > 30:
        raise Reject()
    if kind == "M":
        return row("M", 0, t, "vm::simplify(%s)" % o)
    if kind == "X":
        plain = all(s[0] != "/" for s in subterms(t))
        return row("P" if plain else "M", 0, t, "vm::expand(%s)" % o)
    if kind == "Q":      # simplified and expanded, in either order, or twice
        f, g = r.choice([("simplify", "expand"), ("expand", "simplify"), ("simplify", "simplify"), ("expand", "expand")])
        if terms(t) > 30:
            raise Reject()
        return row("M", 0, t, "vm::%s(vm::%s(%s))" % (f, g, o))
    if kind == "D":
        n = arg or r.choice(VARS)
        i = VARS.index(n)
        d = "vm::diff(%s,%s())" % (o, n)
        k = r.randrange(10) if arg is None else 0
        if k < 6 or size(t) > 25:
            return row("D", i, t, d)
        if k == 6:
            return row("D", i, t, "vm::simplify(%s)" % d)
        if k == 7:
            return row("D", i, t, "vm::expand(%s)" % d) if size(t) < 14 else row("D", i, t, d)
        if k == 8:
            return row("D", i, t, "vm::diff(vm::simplify(%s),%s())" % (o, n))
        return row("2", i, t, "vm::diff(%s,%s())" % (d, n)) if size(t) < 12 else row("D", i, t, d)
    if kind == "S":
        if arg:
            s, rep = arg
        else:
            s = r.choice(subterms(t)) if r.random() < 0.6 else v(r.choice(VARS))
            rep = r.choice(subterms(t) + [X, Y, Z, c(0), c(1), c(3)]) if r.random() < 0.5 else tree(r, r.choice([0, 1, 2]), alphabet(r))
        x = ok(replace(t, s, rep))
        if size(x) > 80 or not small(x):
            raise Reject()
        call = "vm::substitute(%s(),%s(),%s)" % (typ(s), typ(rep), o)
        k = r.randrange(4)
        if k == 0:
            return row("S", 0, t, "vm::simplify(%s)" % call, s, rep)
        if k == 1 and size(x) < 25:
            i = r.randrange(3)
            return row("E", i, t, "vm::diff(%s,%s())" % (call, VARS[i]), s, rep)
        return row("S", 0, t, call, s, rep)
    if kind in "CT":
        n = arg or r.choice(VARS + ["U"] if has(t, "U") else VARS)
        if denhas(t, n) or degree(t, n) > 18:
            raise Reject()
        ok(replace(t, v(n), c(0)))
        return row(kind, (VARS + ["U"]).index(n), t, "vm::%s(%s(),%s)" % ("coefficient" if kind == "C" else "drop_dependent_terms", n, o))
    if kind == "I":
        n = arg or r.choice(VARS)
        if degree(t, n) > 18:
            raise Reject()
        for s in subterms(t):
            if s[0] == "/" and any(has(s[2], m) for m in VARS):
                raise Reject()
        oth = [m for m in VARS if m != n]
        al = [v(m) for m in oth] + [c(0), c(1), c(2), c(-1), c(3)]
        lo, hi = r.choice(al), r.choice(al)
        if r.random() < 0.2:
            lo = tree(r, 1, al, "+-*")
        if r.random() < 0.2:
            hi = tree(r, 1, al, "+-*")
        if degree(t, n) > 6 and (size(lo) > 1 or size(hi) > 1):
            raise Reject()
        return row("I", VARS.index(n), t, "vm::integrate(vm::make_interval(%s(),%s()),%s,%s())" % (typ(lo), typ(hi), o, n), lo, hi)
    if kind == "V":      # evaluated at a compile-time vector (of 1..3 entries) or at a constant; the entries go into the row as a sum
        num = [c(x) for x in (0, 1, -1, 2, -3, 7, 12, 5000000001, -3000000007)] + [("/", c(a), c(b)) for a, b in ((1, 2), (-3, 4), (5, -6), (4, 6))]
        e = [r.choice(num) for _ in VARS]
        need = max([1 + VARS.index(s[1]) for s in subterms(t) if s[0] == "v"] or [1])
        n = r.randrange(need, 4)
        if need == 1 and r.random() < 0.3 and e[0][0] == "c":
            n = 0
        x = t
        for m in zip(VARS, e):
            x = replace(x, v(m[0]), m[1])
        if not small(ok(x), 10 ** 17):
            raise Reject()
        vec = "vm::ct_vector_%d<%s>" % (n, ",".join(map(typ, e[:n]))) if n else typ(e[0])
        return row("V", n, t, "vm::result_of::eval<%s,%s>::type()" % (typ(t), vec), ("+", ("+", e[0], e[1]), e[2]))
    raise ValueError(kind)


CONSTS = [0, 1, -1, 2, 3, -2, 4, 5, 6, -3, 10, 3000000007]


def alphabet(r):
    """few leaves, so that parts coincide"""
    a = [v(n) for n in r.sample(VARS, r.choice([1, 1, 2, 2, 3]))]
    a += [c(x) for x in r.sample(CONSTS, r.choice([1, 1, 2, 3]))]
    return a


def tree(r, d, al, ops="+-*/", reuse=None):
    if reuse is None:
        reuse = []
    if d == 0 or r.random() < 0.12:
        t = r.choice(al)
    elif reuse and r.random() < 0.15:
        return r.choice(reuse)
    else:
        t = (r.choice(ops), tree(r, d - 1, al, ops, reuse), tree(r, d - 1, al, ops, reuse))
    reuse.append(t)
    return t


RATIONAL = [c(-5000000001), ('/', c(3), c(4000000005)), c(0), c(1), c(-1), c(2), c(-2), c(3), c(6), c(-5)] + [("/", c(a), c(b)) for a, b in
            [(1, 2), (-1, 2), (1, -2), (-1, -2), (3, 4), (3, -4), (2, 5), (-2, 5), (2, -5), (4, 6), (6, 4), (3, 2), (4, 2), (0, 3), (7, 1), (-7, -1), (5, 3)]]
PARTS = [c(0), c(1), c(-1), c(3), X, Y, mul(X, X), mul(X, Y), mul(c(5), Y), mul(c(-1), X), mul(X, X, X), ("*", X, ("*", X, X)), ("-", X, c(2)), ("-", c(0), X), ("-", c(0), Y),
         ("-", Y, X), ("+", Y, X), ("+", X, c(1)), ("/", c(1), X), ("/", c(3), X), ("/", X, c(4)), ("/", X, Y), ("/", Y, mul(X, X)), ("/", c(1), Y), ("/", c(2), c(3)), ("/", c(-1), c(2)),
         ("/", ("+", X, Y), Z), ("/", ("-", X, c(1)), mul(Z, Z)), ("*", ("+", X, c(1)), ("-", Y, c(2))), ("-", ("-", c(0), X), Y), ("*", c(2), ("+", X, Y)), ("*", ("/", c(1), c(2)), X), ("/", X, ("+", Y, c(1)))]
FACTORS = [X, X, Y, Z, c(2), c(-3), mul(X, X), mul(X, X, X), mul(Y, Y), ("/", X, c(2)), ("/", c(2), c(3)), ("/", mul(X, X), c(-4)), ("*", c(3), X), ("/", c(1), Z), ("/", Y, mul(Z, Z)), ("/", ("+", X, Y), Z), ("/", ("+", X, Y), mul(Z, Z)),
           ("+", X, c(1)), ("-", Y, X), ("+", X, Y), ("-", c(2), mul(X, X)), ("/", ("-", X, c(3)), c(5)), ("+", ("*", c(2), X), Y)]


def product(r):
    """factors in some order and shape"""
    f = [r.choice(FACTORS) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]
    while len(f) > 1:
        i = r.randrange(len(f) - 1)
        f[i:i + 2] = [("*", f[i], f[i + 1])]
    t = f[0]
    if r.random() < 0.2:
        t = ("/", t, r.choice([c(2), c(-3), Z, mul(Z, Z)]))
    if r.random() < 0.3:
        u = r.choice(FACTORS)
        t = (r.choice("+-"), t, u) if r.random() < 0.5 else (r.choice("+-"), u, t)
    return t


def all_rows(seed, total):
    out, seen = [], set()

    def add(r, kind, t, arg=None):
        try:
            x = make(r, kind, t, arg)
        except Reject:
            return
        if x not in seen:
            seen.add(x)
            out.append(x)

    r = random.Random(seed)
    for op in "+-*/":
        for a in RATIONAL:
            for b in RATIONAL:
                add(r, "M", (op, a, b))
                add(r, r.choice("MXQ"), r.choice([("*", X, (op, a, b)), ("*", (op, a, b), X), ("+", X, (op, a, b)), ("/", X, (op, a, b)), ("-", (op, a, b), X)]))
        for a in PARTS:
            for b in PARTS:
                for k in "MXDQCTISV":
                    add(r, k, (op, a, b))
    directed = len(out)
    while len(out) < total:
        k = r.choice("MMMXXXDDDQSSSSCCCTIIIVVV")
        if k in "XCIDTQ" and r.random() < 0.5:
            t = product(r)
        else:
            al = alphabet(r)
            if k in "SCT" and r.random() < 0.2:
                al.append(v("U"))
            t = tree(r, r.choice([1, 2, 2, 3, 3, 4] if k not in "I" else [1, 2, 3, 3]), al, "+-*/" if k not in "CI" or r.random() < 0.3 else "+-**")
        if has(t, "U") and k not in "SCT":
            continue
        if has(t, "U") and k == "S":
            add(r, k, t, (v("U"), tree(r, r.choice([0, 1, 2]), alphabet(r))))
        elif has(t, "U"):
            add(r, k, t, "U")
        else:
            add(r, k, t)
    return out, directed


def main():
    d, seed, slices, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    rows, directed = all_rows(seed, slices * per)
    random.Random(seed + 1).shuffle(rows)
    for s in range(slices):
        part = rows[s::slices]
        with open(os.path.join(d, "ctt_cases_%d.inc" % (s + 1)), "w") as f:
            f.write("\n".join(part) + "\n")
    sys.stderr.write("%d rows, %d of them directed\n" % (len(rows), directed))


main()
