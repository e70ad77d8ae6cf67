#!/usr/bin/env python3-vt
"""Writes sim/ctm_cases.hpp: compile-time manipulations and the prefix form of what they denote (computed with sympy).
   usage: ctm_gen.py SEED SLICES PER_SLICE > ctm_cases.hpp
   Every candidate is a library call over +, -, *, / of compile-time variables and constants. Q(use, expanded, prefix, call), see sim/lib_ctm.hpp."""
import random, sys
import sympy as sp

VARS = ["X", "Y", "Z"]
SYM = {n: sp.Symbol(n.lower()) for n in VARS + ["U"]}
BAD = (sp.zoo, sp.nan, sp.oo)
CONSTS = [0, 0, 1, 1, -1, 2, 3, -2, 4, 5, 6, 7, -3, 12, -10, 9, -4]
BIG = [100000, -70000, 5000000000, 65536]


class Reject(Exception):
    pass


def lib(t):
    return "K<%dL>()" % t[1] if t[0] == "c" else t[1] if t[0] == "v" else "(%s %s %s)" % (lib(t[1]), t[0], lib(t[2]))


def sym(t):
    if t[0] == "c":
        return sp.Integer(t[1])
    if t[0] == "v":
        return SYM[t[1]]
    a, b = sym(t[1]), sym(t[2])
    if t[0] == "/":
        if sp.simplify(b) == 0:
            raise Reject()
        return a / b
    return a + b if t[0] == "+" else a - b if t[0] == "-" else a * b


def pre(e):
    """prefix text of a rational function"""
    if e.is_Rational:
        return str(int(e)) if e.q == 1 else "/ %d %d" % (e.p, e.q)
    if e.is_Symbol:
        return str(e)
    if e.is_Add or e.is_Mul:
        op = "+" if e.is_Add else "*"
        a = list(e.args)
        r = pre(a[-1])
        for x in reversed(a[:-1]):
            r = "%s %s %s" % (op, pre(x), r)
        return r
    if e.is_Pow and e.exp.is_Integer:
        n = int(e.exp)
        b = pre(e.base)
        r = b
        for _ in range(abs(n) - 1):
            r = "* %s %s" % (b, r)
        return r if n > 0 else "/ 1 " + r
    raise Reject()


def const(r, nz=False, big=False):
    c = r.choice(CONSTS + (BIG if big else []))
    return ("c", c) if c or not nz else ("c", 2)


def tree(r, d, names, ops="+-*/", constden=False, big=False, full=False):
    if d == 0 or (not full and r.random() < 0.15):
        return const(r, big=big) if r.random() < 0.4 else ("v", r.choice(names))
    op = r.choice(ops)
    a = tree(r, d - 1, names, ops, constden, big, full)
    if op == "/":
        b = const(r, nz=True, big=big) if constden or r.random() < 0.3 else tree(r, d - 1, names, ops, constden, big, full)
    else:
        b = tree(r, d - 1, names, ops, constden, big, full)
    return (op, a, b)


def has(t, v):
    return t == ("v", v) if t[0] in "cv" else has(t[1], v) or has(t[2], v)


def denhas(t, v):
    if t[0] in "cv":
        return False
    return (t[0] == "/" and has(t[2], v)) or denhas(t[1], v) or denhas(t[2], v)


def subterms(t):
    return [t] if t[0] in "cv" else [t] + subterms(t[1]) + subterms(t[2])


def replace(t, a, b):
    return b if t == a else t if t[0] in "cv" else (t[0], replace(t[1], a, b), replace(t[2], a, b))


def fold(t):
    """operators on two constants give a constant, x - x gives 0 and e / e gives 1"""
    if t[0] in "cv":
        return t
    a, b = fold(t[1]), fold(t[2])
    if a[0] == "c" and b[0] == "c":
        if t[0] == "/":
            raise Reject()
        return ("c", a[1] + b[1] if t[0] == "+" else a[1] - b[1] if t[0] == "-" else a[1] * b[1])
    if a == b and (t[0] == "/" or (t[0] == "-" and a[0] == "v")):
        return ("c", 1 if t[0] == "/" else 0)
    return (t[0], a, b)


def one(r, kind, base=None, depth=None):
    """(library text, sympy value, flags)"""
    big = r.random() < 0.1
    flags = 0
    dep = depth if depth is not None else r.choice([1, 2, 2, 3, 3, 4])
    if kind == "D":
        e = base or tree(r, dep, VARS, big=big)
        v = r.choice(VARS)
        return "vm::diff(%s, %s)" % (lib(e), v), sp.diff(sym(e), SYM[v]), 0
    if kind == "M":
        e = base or tree(r, dep, VARS, big=big)
        return "vm::simplify(%s)" % lib(e), sym(e), 0
    if kind == "X":
        e = base or tree(r, r.choice([2, 3, 3]), VARS, big=big)
        return "vm::expand(%s)" % lib(e), sym(e), 0
    if kind == "P":
        e = base or tree(r, r.choice([2, 3, 3]), VARS, "+-**")
        return "vm::expand(%s)" % lib(e), sym(e), 1
    if kind == "S":
        names = VARS + (["U"] if r.random() < 0.3 else [])
        e = base or tree(r, min(dep, 3), names, big=big)
        if has(e, "U"):
            s = ("v", "U")
        elif r.random() < 0.35:
            e = fold(e)
            s = r.choice(subterms(e))
        else:
            s = ("v", r.choice(VARS))
        rep = tree(r, r.choice([0, 1, 2]), VARS)
        x = replace(e, s, rep)
        return "vm::substitute(%s, %s, %s)" % (lib(s), lib(rep), lib(e)), sym(x), 0
    if kind in "CT":
        e = base or tree(r, min(dep, 3), VARS + (["U"] if r.random() < 0.3 else []))
        v = "U" if has(e, "U") else r.choice(VARS)
        if denhas(e, v):
            raise Reject()
        x = sym(e)
        x0 = x.subs(SYM[v], 0)
        if kind == "C":
            x = sp.expand(sp.cancel((x - x0) / SYM[v]))
            if x.has(SYM["U"]):
                raise Reject()
        else:
            x = x0
        return "vm::%s(%s, %s)" % ("coefficient" if kind == "C" else "drop_dependent_terms", v, lib(e)), x, 0
    if kind == "I":
        v = r.choice(VARS)
        e = base or tree(r, r.choice([1, 2, 3]), VARS, constden=True)
        if denhas(e, v):
            raise Reject()
        oth = [w for w in VARS if w != v]
        lo = tree(r, r.choice([0, 0, 1]), oth, "+-*")
        hi = tree(r, r.choice([0, 0, 1]), oth, "+-*")
        x = sp.integrate(sp.expand(sym(e)), (SYM[v], sym(lo), sym(hi)))
        return "vm::integrate(vm::make_interval(%s, %s), %s, %s)" % (lib(lo), lib(hi), lib(e), v), sp.expand(x), 0
    if kind == "V":
        n = r.choice([1, 2, 3])
        e = base or tree(r, min(dep, 3), VARS[:n], big=big)
        if e[0] in "cv" and r.random() < 0.8:
            raise Reject()
        p = [const(r, big=big)[1] for _ in range(n)]
        if any(has(e, w) for w in VARS[n:]):
            raise Reject()

        def ev(t):
            if t[0] == "c":
                return sp.Integer(t[1])
            if t[0] == "v":
                return sp.Integer(p[VARS.index(t[1])])
            a, b = ev(t[1]), ev(t[2])
            if t[0] == "/":
                if b == 0:
                    raise Reject()
                return a / b
            return a + b if t[0] == "+" else a - b if t[0] == "-" else a * b
        return "vm::eval(%s, vm::make_vector(%s))" % (lib(e), ", ".join("K<%dL>()" % c for c in p)), ev(e), 0
    if kind == "N":     # the result of one manipulation goes into another
        a = r.choice("DMSXP")
        t, x, _ = one(r, a, depth=r.choice([1, 2, 2, 3]))
        b = r.choice("DMSX")
        if b == "D":
            v = r.choice(VARS)
            return "vm::diff(%s, %s)" % (t, v), sp.diff(x, SYM[v]), 0
        if b == "S":
            v = r.choice(VARS)
            rep = tree(r, r.choice([0, 1]), VARS)
            return "vm::substitute(%s, %s, %s)" % (v, lib(rep), t), x.subs(SYM[v], sym(rep)), 0
        return "vm::%s(%s)" % ("simplify" if b == "M" else "expand", t), x, 0
    raise ValueError(kind)


def directed(r):
    """every operator with every kind of operand, once"""
    ops = [("c", 0), ("c", 1), ("c", 3), ("c", -2), ("v", "X"), ("v", "Y"), ("*", ("v", "X"), ("v", "X")), ("-", ("v", "X"), ("c", 2)), ("/", ("c", 3), ("v", "X")), ("/", ("v", "X"), ("c", 4)), ("+", ("v", "Y"), ("v", "X")), ("*", ("c", 5), ("v", "Y"))]
    out = []
    for op in "+-*/":
        for a in ops:
            for b in ops:
                if op == "/" and b == ("c", 0):
                    continue
                out.append((op, a, b))
    r.shuffle(out)
    return out


def case(r, kind, base=None):
    for _ in range(2000):
        try:
            t, x, f = one(r, kind, base)
            if x.has(*BAD):
                raise Reject()
            p = pre(x)
            if len(p) > 900 or len(t) > 700:
                raise Reject()
            return t, p, f
        except (Reject, ZeroDivisionError):
            if base is not None and r.random() < 0.2:
                return None
    return None


def main():
    seed, slices, per = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    r = random.Random(seed)
    out = []
    seen = set()
    kinds = "DDMMXPSSCTIIVVN"
    dirs = {k: directed(r) for k in "DMXSCTIV"}
    n = slices * per
    i = 0
    while len(out) < n:
        k = kinds[i % len(kinds)]
        base = dirs[k].pop() if k in dirs and dirs[k] and r.random() < 0.3 else None
        i += 1
        c = case(r, k, base)
        if c is None or c[0] in seen:
            continue
        seen.add(c[0])
        use = r.choice([0, 0, 1, 1, 2, 3, 4])
        if k != "V" and use < 3 and r.random() < 0.15:
            c = (c[0].replace("Z", "W"), c[1].replace("z", "w"), c[2])
        out.append(c + (use,))
    print("// Written by tools/ctm_gen.py %d %d %d: compile-time manipulations and what they denote. Q(use, whether the result is expanded, prefix form, call)" % (seed, slices, per))
    for s in range(slices):
        print("#if CTM_SLICE == %d" % (s + 1))
        print("#define CTM_CASES(Q) \\")
        part = out[s::slices]
        for j, (t, p, f, u) in enumerate(part):
            print('  Q(%d, %d, "%s", %s)%s' % (u, f, p, t, " \\" if j + 1 < len(part) else ""))
        print("#endif")


main()
