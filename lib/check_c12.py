"""C12: queries, diagnostics, misuse."""
from stream import *


def main():
    c = Check("C12")
    variants = ["std", "nosse", "o3lib"] + ([] if QUICK else ["clang", "o0"])
    cfgs = configs() + configs(ratios=(1,))
    num = 200 if QUICK else 2000
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_many, variants)
        fp = ex.submit(load_plan, c, 4)
        fh = ex.submit(histories, c, num, 24, 2, 2, 12, ["new", "p", "p", "p", "p", "r", "q", "q", "q", "mv", "ma"])
        fm = ex.submit(c.contract, ["refuse", "query", "delay"], (1,) if QUICK else (1, 2))
        exes, plan, hs, _ = fb.result(), fp.result(), fh.result(), fm.result()
    rng = c.rng
    sizes = {cf.key(): block_sizes(cf, plan) for cf in cfgs}
    for v in variants:
        g, s = Script(), Script()
        ids = Sids((g, s))
        for k, h in enumerate(hs if v == "std" else hs[::4]):
            slots = [rng.choice(cfgs) for _ in range(2)]
            s.case("%s-h%d" % (v, k), concretize(h, slots, sizes, ids, rng, g, maxlen=300, al=False, final_del=False))
        # all supported configurations, queried before, between and after processing and reset
        for cf in cfgs:
            u = cf.unit()
            sd = ids.lcg(rng.getrandbits(30), 96 * u, 4)
            b = [(n * u, 0) for n in (0, 1, 7, 40, 16, 32)]
            twin_gold(g, cf, sd, b)
            ops = ["new 0 " + cf.args(), "q 0"]
            for p in p_ops(cf, 0, sd, b):
                ops += [p, "q 0"]
            ops += ["r 0", "q 0", "mv 0 1", "q 1"] + p_ops(cf, 1, sd, b) + ["q 1"]
            s.case("%s-%r" % (v, cf), ops, **cf.d())
            if cf.m == "D" and cf.r == 2 and cf.f == "F":
                # odd blocks are refused at any point of a stream and leave no trace in it
                ops, off = ["new 0 " + cf.args()], 0
                for n, al in b:
                    odd = rng.choice([1, 3, 5, 31, 63, 95])
                    ops += ["p 0 %d 0 %d %d 0 m" % (sd, odd, rng.randrange(4)), "p 0 %d %d %d 0 0 m" % (sd, off, n), "q 0"]
                    off += n
                s.case("%s-%r-odd" % (v, cf), ops, **cf.d())
                # long odd blocks too: around the sizes a buffer could have, and late in a stream
                ops, off = ["new 0 " + cf.args()], 0
                lg = [2 ** k + d for k in range(7, 17) for d in (-1, 1)] + [rng.randrange(1000, 60000) | 1 for _ in range(3)]
                ld = ids.lcg(rng.getrandbits(30), 70000, 4)
                for n in [2 ** k + d for k in range(17, 33) for d in (-1, 1) if 2 ** k + d < 2 ** 32]:
                    ops.append("refuse 0 %d" % n)
                for n, al in b:
                    for odd in rng.sample(lg, 4 if QUICK else 12):
                        ops += ["p 0 %d 0 %d %d 0 m" % (ld, odd, rng.randrange(4))]
                    ops += ["p 0 %d %d %d 0 0 m" % (sd, off, n), "q 0"]
                    off += n
                s.case("%s-%r-oddlong" % (v, cf), ops, **cf.d())
        for cf in configs(ratios=(2,), modes="D", filters="F"):
            sweep_case(g, s, ids, cf, "%s-%r-odds" % (v, cf), [("o", 1, 2100 if QUICK else 40000, 1)], rng, 300, length=2200 if QUICK else 40100)
        # unsupported constructor arguments are reported
        for m in "UD":
            for f in "FI":
                for sse in (0, 1):
                    for r in (0, 3, 5, 6, 7, 9, 10, 12, 15, 16, 17, 32, 64, 4096, 2147483648, 4294967295):
                        for p in (8, 24) if r in (0, 3, 16) else (rng.choice(PRECS[f]),):
                            s.case("%s-ratio%s%d%s%d%d" % (v, m, r, f, p, sse), ["new 0 %s %d %d %d %s" % (m, r, p, sse, f), "del 0"])
                    for p in (0, 2, 3, 4, 7, 9, 10, 11, 13, 14, 15, 17, 18, 19, 21, 22, 23, 25, 32, 48, 72, 96, 120, 144, -1, -8):
                        r = rng.choice((2, 4, 8))
                        s.case("%s-prec%s%d%s%d%d" % (v, m, r, f, p, sse), ["new 0 %s %d %d %d %s" % (m, r, p, sse, f), "del 0"])
                    if f == "I":
                        for r in (2, 4, 8):
                            s.case("%s-lin%s%d%d" % (v, m, r, sse), ["new 0 %s %d 1 %d I" % (m, r, sse), "del 0"])
        # all ratios and precisions of a wide range
        top = 20000 if QUICK else 1000000
        for m in "UD":
            for f in "FI":
                for sse in (0, 1):
                    runs = ["news r %s %d %d %s %d %d" % (m, p, sse, f, a, a + top) for p in rng.sample(PRECS[f], 1 if QUICK else 2) for a in (0, rng.getrandbits(30))]
                    runs += ["news p %s %d %d %s %d %d" % (m, r, sse, f, a, a + top) for r in ((rng.choice((2, 4, 8)), 1) if QUICK else (1, 2, 4, 8)) for a in (-top // 2, rng.getrandbits(30), -rng.getrandbits(30) - top)]
                    s.case("%s-news-%s%s%d" % (v, m, f, sse), runs)
        c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:14]})
        run_stream_check(c, exes[v], s, g, aspects=["diag", "query", "qconst", "out", "foot"], name=v, parts=3)
        if c.violations:
            break
    return c.finish()
