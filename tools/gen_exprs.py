"""Writes the expression programs of N01 (arithmetic) and N05 (conditionals):
a complete catalogue (every operator x every pair of operand kinds) plus random
trees.  Each program text is compiled for Nebo and for the scalar reference."""
import os, random

BINF = ["pow", "min", "max"]
BINO = ["+", "-", "*", "/"]
UN = ["sin", "cos", "tan", "exp", "tanh", "abs", "-", "sqrt", "log", "log10", "erf", "erfc"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
# operand kinds: S scalar, F field, X expression, V single-value field, W single-value expression
KIND = {"S": ["o.k", "o.q", "2.0", "-1.5"], "F": ["o.a", "o.b", "o.c"], "X": ["(o.b+o.c)", "(o.a*o.k)", "abs(o.c)"],
        "V": ["o.s", "o.u"], "W": ["(o.s+o.u)", "(o.s*o.k)"]}
A1 = {"S": "o.k", "F": "o.a", "X": "(o.a*o.k)", "V": "o.s", "W": "(o.s+o.u)"}
A2 = {"S": "o.q", "F": "o.b", "X": "(o.b+o.c)", "V": "o.u", "W": "(o.s*o.q)"}
FIELDK, SVK = set("FX"), set("VW")

def bin_(op, a, b):
    return "%s(%s,%s)" % (op, a, b) if op in BINF else "(%s %s %s)" % (a, op, b)
def un_(op, a):
    return "(-%s)" % a if op == "-" else "%s(%s)" % (op, a)
def use(t):
    return (1 if "o.a" in t else 0) | (2 if "o.b" in t else 0) | (4 if "o.c" in t else 0) | (8 if "o.m" in t else 0) | (16 if "o.n" in t else 0)

def catalogue():
    """(text, is_field) for every operator and operand-kind pair"""
    out = []
    for op in BINO + BINF:
        for x in "SFXVW":
            for y in "SFXVW":
                if x == "S" and y == "S": continue
                out.append((bin_(op, A1[x], A2[y]), bool({x, y} & FIELDK)))
    for op in UN:
        for x in "FXVW":
            out.append((un_(op, A1[x]), x in FIELDK))
    for x in "SFXVW":   # plain copies and literals
        out.append((A1[x] if x != "S" else "o.k", x in FIELDK or x == "S"))
    return out

class Trees:
    def __init__(self, rnd, need_cond=False): self.r = rnd
    def leaf(self, field):
        k = self.r.choice("FFF" if field else "SVW")
        return self.r.choice(KIND[k]), k in FIELDK, k == "S"
    def tree(self, d, field):
        """(text, field-typed?, plain scalar?); guarantees field-typed when asked"""
        r = self.r
        if d == 0: return self.leaf(field)
        if r.random() < 0.3:
            t, f, s = self.tree(d - 1, field)
            if s: return t, f, s
            return un_(r.choice(UN), t), f, False
        first = r.random() < 0.5
        a = self.tree(r.randint(0, d - 1), field and first or (not field and False))
        b = self.tree(r.randint(0, d - 1), field and not first)
        if not field and r.random() < 0.5: pass
        if field and r.random() < 0.6:
            if first: b = self.tree(r.randint(0, d - 1), True)
            else: a = self.tree(r.randint(0, d - 1), True)
        op = r.choice(BINO * 2 + BINF)
        if a[2] and b[2]:
            if op in BINF: op = "+"
            return "(%s %s %s)" % (a[0], op, b[0]), False, True
        return bin_(op, a[0], b[0]), a[1] or b[1], False

def trees(rnd, n, depth):
    t = Trees(rnd); out = []
    while len(out) < n:
        x = t.tree(rnd.randint(2, depth), True)
        if not x[1] or len(x[0]) > 260: continue
        out.append((x[0], True))
    return out

# ---------------------------------------------------------------- conditionals
BOOLS = ["(o.k<o.q)", "(o.q<=o.k)", "(o.k>0.5)", "(o.q<-0.5)"]
CMPS = ["(o.a<o.b)", "(o.b>=o.c)", "(o.a>o.k)", "(o.q<=o.c)", "((o.a*o.b)>o.s)", "(o.c!=o.a)", "(o.a==o.c)"]
MASKS = ["o.m", "o.n"]
CK = {"B": BOOLS, "C": CMPS, "M": MASKS}
VK = {"S": ["o.k", "o.q"], "F": ["o.a", "o.b", "o.c"], "X": ["(o.a+o.b)", "(o.c*o.s)", "(o.b-o.k)", "abs(o.a)"]}

class Conds:
    def __init__(self, rnd): self.r = rnd
    def boolexpr(self, d):
        """a field-valued boolean expression (never a bare mask or plain bool)"""
        r = self.r
        if d == 0: return r.choice(CMPS)
        x = r.random()
        if x < 0.2: return "!" + r.choice(MASKS)
        if x < 0.4: return "!(%s)" % self.boolexpr(d - 1)
        op = r.choice(["&&", "||"])
        a, b = self.boolexpr(d - 1), r.choice(BOOLS + MASKS + [self.boolexpr(d - 1)] * 5)
        if r.random() < 0.5: a, b = b, a
        return "(%s %s %s)" % (a, op, b)
    def cond(self, k):
        r = self.r
        if k == "C" and r.random() < 0.3: return self.boolexpr(r.randint(1, 2))
        return r.choice(CK[k])
    def chain(self, seq, fin):
        return "cond(%s)" % ")(".join("%s, %s" % (self.cond(c), self.r.choice(VK[v])) for c, v in seq) + "(%s)" % self.r.choice(VK[fin])

def conditionals(rnd, nrand):
    c = Conds(rnd); out = []
    cls = [(a, b) for a in "BCM" for b in "SFX"]
    for s in cls:                                   # one clause
        for f in "SFX": out.append((c.chain([s], f), True))
    for s in cls:                                   # two clauses: every builder transition
        for t in cls:
            out.append((c.chain([s, t], rnd.choice("SFX")), True))
    for op in CMP:                                  # every comparison with every operand kind
        for x in "SFXVW":
            for y in "SFXVW":
                if {x, y} & FIELDK: out.append(("cond(%s %s %s, o.c)(o.k)" % (A1[x], op, A2[y]), True))
    bk = ["(o.k<o.q)", "(o.a<o.b)", "o.m", "(o.b>o.c)", "o.n"]
    for op in ["&&", "||"]:
        for x in bk:
            for y in bk:
                if x == y or (x == bk[0] and y == bk[0]): continue
                out.append(("cond(%s %s %s, o.a)(o.c)" % (x, op, y), True))
    out += [("cond(!o.m, o.a)(o.k)", True), ("cond(!(o.a<o.b), o.k)(o.c)", True),
            ("cond(cond(o.a<o.b,o.a)(o.b) < o.c, o.k)(o.q)", True), ("(o.a + cond(o.m,o.a)(o.b<o.c,o.k)(o.b))", True),
            ("cond(o.a<o.b, cond(o.m,o.a)(o.k))(o.b)", True), ("(cond(o.k<o.q, o.k)(o.q) + o.a)", True),
            ("cond(o.k<o.q, o.s)(o.u)", False), ("cond(o.k<o.q, o.k)(o.s)", False), ("cond(o.k<o.q, o.s)(o.k>0.5, o.u)(o.q)", False),
            ("cond(o.q<0.5, o.k)(o.k<o.q, o.s)(o.u)", False), ("cond(o.k<o.q, o.s)(o.q)", False)]
    for i in range(nrand):                          # longer sequences
        seq = [rnd.choice(cls) for _ in range(rnd.randint(3, 6))]
        out.append((c.chain(seq, rnd.choice("SFX")), True))
    return out

def emit(path, progs, types, prefix, cases, svt="double", reduce=False):
    """progs: list of (text, is_field)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        f.write('#define VF_REDUCE\n#include "exprs.h"\n' if reduce else '#include "exprs.h"\n')
        for i, (t, fld) in enumerate(progs): f.write("VF_EXPR(%s%d,%d,%s)\n" % (prefix, i, use(t), t))
        f.write("int main(int argc,char**argv){ vf::init(argc,argv);\n")
        for i, (t, fld) in enumerate(progs):
            n = "%s%d" % (prefix, i); ft = types[i % len(types)]
            f.write(' vf::group("%s",%d,[](vf::Case& c){ vf::run_%s<%s,%s >(c,"%s"); });\n' % (n, cases, "red" if reduce else "expr" if fld else "sv", n, ft, n))
        f.write(" return vf::finish(); }\n")
    old = open(path).read() if os.path.exists(path) else None
    if old == open(path + ".tmp").read(): os.unlink(path + ".tmp")
    else: os.replace(path + ".tmp", path)

TYPES_D = ["SVolField", "XVolField", "SSurfXField", "YSurfYField", "ZVolField", "SSurfZField", "XSurfYField"]
FLT = "SpatialField<SVol,float>"

def n01(tier, seed, gen):
    os.makedirs(gen, exist_ok=True)
    rnd = random.Random(seed * 7919 + 1)
    cat = catalogue(); rnd.shuffle(cat)
    jobs = []
    ntree = 48 if tier == "quick" else 480
    tr = trees(rnd, ntree, 3 if tier == "quick" else 4)
    progs = cat + tr
    chunk = 34 if tier == "quick" else 60
    k = 0
    for i in range(0, len(progs), chunk):
        p = os.path.join(gen, "n01_%d_%s_%d.cpp" % (seed, tier, k))
        flt = k % 3 == 2
        emit(p, progs[i:i + chunk], [FLT, "SpatialField<SSurfX,float>"] if flt else TYPES_D[k % 3:] + TYPES_D[:k % 3], "E%d_" % k, 100)
        jobs.append((k, p)); k += 1
    return jobs

def n05(tier, seed, gen):
    os.makedirs(gen, exist_ok=True)
    rnd = random.Random(seed * 104729 + 5)
    progs = conditionals(rnd, 60 if tier == "quick" else 500); rnd.shuffle(progs)
    chunk = 40 if tier == "quick" else 64
    out = []
    for k, i in enumerate(range(0, len(progs), chunk)):
        p = os.path.join(gen, "n05_%d_%s_%d.cpp" % (seed, tier, k))
        flt = k % 4 == 3
        emit(p, progs[i:i + chunk], [FLT, "SpatialField<SSurfX,float>"] if flt else TYPES_D[k % 3:] + TYPES_D[:k % 3], "C%d_" % k, 60)
        out.append((k, p))
    return out

def n04(tier, seed, gen):
    rnd = random.Random(seed * 15485863 + 4)
    ok = lambda p: p[1] and use(p[0])
    cat = [p for p in catalogue() if ok(p)]; con = [p for p in conditionals(rnd, 20 if tier == "quick" else 300) if ok(p)]
    # a clause without any field before a field, and the reverse
    must = [("cond(%s, %s)(%s)" % (b, v, f), True) for b in BOOLS[:2] + CMPS[:1] + MASKS[:1] for v in ("o.k", "o.a") for f in ("o.q", "o.b") if use(b + v + f)]
    rnd.shuffle(cat); rnd.shuffle(con); tr = trees(rnd, 20 if tier == "quick" else 240, 3)
    progs = must + (cat[:70] + con[:70] if tier == "quick" else cat + con) + [p for p in tr if use(p[0])]
    rnd.shuffle(progs); chunk = 30 if tier == "quick" else 60; out = []
    for k, i in enumerate(range(0, len(progs), chunk)):
        p = os.path.join(gen, "n04_%d_%s_%d.cpp" % (seed, tier, k))
        flt = k % 4 == 3
        emit(p, progs[i:i + chunk], [FLT, "SpatialField<SSurfX,float>"] if flt else TYPES_D[k % 3:] + TYPES_D[:k % 3], "R%d_" % k, 60, reduce=True)
        out.append((k, p))
    return out

if __name__ == "__main__":
    import sys
    print(len(catalogue())); print(n01("quick", 1, "/tmp/t/gen"))
