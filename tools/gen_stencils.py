"""Writes the user-defined stencils of O05: random point collections (1 to 12
points, offsets up to three cells, one-sided and repeated points included) between
random field types, as coefficient, sum and average stencils."""
import os, random
F = ["SVol", "SSurfX", "SSurfY", "SSurfZ", "XVol", "XSurfX", "XSurfY", "XSurfZ", "YVol", "YSurfX", "YSurfY", "YSurfZ", "ZVol", "ZSurfX", "ZSurfY", "ZSurfZ"]
def stencil(r, i):
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    style = r.randint(0, 4)
    pts = []
    for _ in range(n):
        if style == 0: p = [r.randint(-1, 1) for _ in range(3)]
        elif style == 1: p = [r.randint(0, 3), 0, 0]          # one-sided
        elif style == 2: p = [0, -r.randint(0, 3), r.randint(-2, 0)]
        elif style == 3:
            p = [0, 0, 0]; p[r.randint(0, 2)] = r.randint(-3, 3)
        else: p = [r.randint(-2, 2) for _ in range(3)]
        pts.append(tuple(p))
    if r.random() < 0.2 and n > 1: pts[-1] = pts[0]           # a repeated point counts twice
    src = r.choice(F); dst = src if r.random() < 0.35 else r.choice(F)
    kind = r.choice("CCCSA")
    return dict(i=i, pts=pts, src=src, dst=dst, kind=kind)
def o05(tier, seed, gen):
    os.makedirs(gen, exist_ok=True)
    r = random.Random(seed * 77 + 5)
    parts = 4; per = 6 if tier == "quick" else 14
    out = []
    for p in range(parts):
        t = ['#include "o05.h"', "using namespace vf;"]
        runs = []
        for i in range(per):
            s = stencil(r, p * per + i)
            # make sure every kind and a single point occur whatever the seed
            if p == 0 and i == 0: s["kind"] = "C"; s["pts"] = s["pts"][:1]
            if p == 1 and i == 0: s["kind"] = "S"
            if p == 2 and i == 0: s["kind"] = "A"
            if i == 1: s["dst"] = s["src"]
            c = "NeboStencilPointCollection< IndexTriplet<%d,%d,%d>, NeboNil >" % s["pts"][0]
            for q in s["pts"][1:]: c += "::AddPoint< IndexTriplet<%d,%d,%d> >::Result" % q
            nm = "U%d" % s["i"]
            t.append("struct %s { typedef %s Pts; typedef %sField Src; typedef %sField Dst; static const char kind='%s';\n static std::vector<IV> pts(){ return {%s}; } static const char* text(){ return \"%s %s->%s %s\"; } };" %
                     (nm, c, s["src"], s["dst"], s["kind"], ",".join("IV(%d,%d,%d)" % q for q in s["pts"]), s["kind"], s["src"], s["dst"], " ".join("%d/%d/%d" % q for q in s["pts"])))
            runs.append(' run<%s>("%s");' % (nm, nm))
        t.append("int main(int argc,char** argv){ init(argc,argv);")
        t += runs
        t.append(" return finish(); }")
        txt = "\n".join(t) + "\n"
        path = os.path.join(gen, "o05_%s_%d_%d.cpp" % (tier, seed, p))
        if not os.path.exists(path) or open(path).read() != txt:
            tmp = path + ".%d" % os.getpid(); open(tmp, "w").write(txt); os.replace(tmp, path)
        out.append((p, path))
    return out
