"""C11: no heap use while processing, nothing left behind."""
from stream import *


def main():
    c = Check("C11")
    variants = ["std", "asan"] + ([] if QUICK else ["clang", "o3lib", "nosse", "o0"])
    cfgs = configs() + configs(ratios=(1,), sse=(1, 0), precs=[8, 24])
    num = 160 if QUICK else 1500
    with ThreadPoolExecutor(5) as ex:
        fm = ex.submit(c.contract, ["alloc", "leak"])
        fb = ex.submit(build_many, variants)
        fp = ex.submit(load_plan, c, 4)
        fh = ex.submit(histories, c, num, 22, 4, 4, 12, ["new", "new", "p", "p", "p", "poison", "r", "q", "mv", "ma", "del"])
        fm.result()
        exes, plan, hs = fb.result(), fp.result(), fh.result()
    rng = c.rng
    sizes = {cf.key(): block_sizes(cf, plan) + [(-(-n // cf.unit()) * cf.unit(), 0) for n in (1024, 1025, 2050, 4096)] for cf in cfgs}
    for v in variants:
        s = Script(limit=60)
        ids = Sids((s,))
        pois = {u: ids.add(poison(rng, 300 * u), 300 * u, fmt="n", fin=0) for u in (1, 2, 4, 8)}
        st = {u: ids.add("lcg 5 %d 4" % (9000 * u), 9000 * u, fmt="n") for u in (1, 2, 4, 8)}

        class Fixed:           # contents do not matter here: reuse one stream per unit
            len = ids.len

            def lcg(self, seed, n, levels, **kw):
                return st[self.u]
        fx = Fixed()
        for k, h in enumerate(hs if v == "std" else hs[::4]):
            u = rng.choice((1, 2, 4, 8))
            fx.u = u
            pool = [x for x in cfgs if x.unit() == u]
            slots = [rng.choice(pool) for _ in range(4)]
            s.case("%s-h%d" % (v, k), concretize(h, slots, sizes, fx, rng, None, maxlen=9000, poison_sid=pois))
        # every configuration: construct, every block size class, reset, destroy
        for cf in cfgs:
            u = cf.unit()
            ops, off = ["new 0 " + cf.args(), "q 0"], 0
            bl = list(sizes[cf.key()])
            rng.shuffle(bl)
            for n, al in bl:
                if off + n > 9000 * u:
                    ops.append("r 0")
                    off = 0
                ops.append("p 0 %d %d %d %d %d m" % (st[u], off, n, al, rng.randrange(4)))
                off += n
            ops += ["r 0", "q 0", "mv 0 1", "del 0", "p 1 %d 0 %d 0 0 m" % (st[u], 8 * u), "new 0 " + cf.args(), "ma 1 0", "del 1", "p 0 %d %d %d 0 0 m" % (st[u], 8 * u, 8 * u), "del 0"]
            if v != "asan" or cf.s:
                s.case("%s-%r" % (v, cf), ops)
        # constructions that are diagnosed
        for a in ("U 3 8 1 F", "U 0 8 1 F", "D 16 24 1 F", "U 2 7 1 F", "D 4 9 0 F", "U 8 1 1 I", "D 2 1 0 I", "U 2 25 1 I", "D 5 12 0 I"):
            s.case("%s-wrong-%s" % (v, a.replace(" ", "")), ["new 0 " + a, "del 0", "new 1 " + a, "new 2 U 2 8 1 F", "del 1", "del 2"])
        if v == "std":
            # long runs with many calls, many resets, many objects
            i2 = Sids((s,), first=1000)
            for cf in cfgs:
                u = cf.unit()
                soak_case(None, s, i2, cf, "%s-soak-%r" % (v, cf), 1, 1100000, rng)
                sweep_case(None, s, i2, cf, "%s-sweep-%r" % (v, cf), [("n", 1, 2100 if QUICK else 4200, 1), ("x", 1, 60 if QUICK else 2000, 1)], rng, 13000, fmt="n")
                sd = i2.lcg(rng.getrandbits(30), 60 * u, 4)
                s.case("%s-wear-%r" % (v, cf), ["new 0 " + cf.args(), "wear 0 %d %d 2000" % (sd, 8 * u), "crowd 0 %d %d 40" % (sd, 60 * u), "del 0"], **cf.d())
            # blocks larger than any staging buffer one would put on the stack, at every alignment of the input and output
            big = {u: i2.add("lcg 6 %d 4" % (140000 * u), 140000 * u, fmt="n") for u in (1, 2, 4, 8)}
            for cf in cfgs:
                u = cf.unit()
                ops, off = ["new 0 " + cf.args()], 0
                for n in (16385, 32771, 65537) if QUICK else (8193, 16384, 16385, 20000, 32768, 32771, 65536, 65537, 100001, 139999):
                    for al in (0, 1, 2, 3):
                        ops += ["p 0 %d 0 %d %d %d m" % (big[u], n * u, al, (al * 3 + n) % 4), "r 0"]
                s.case("%s-huge-%r" % (v, cf), ops + ["del 0"], **cf.d())
                giant_case(None, s, i2, cf, "%s-giant-%r" % (v, cf), ((1 << 22) if QUICK else (1 << 26)) + rng.randrange(1 << 16), rng, gold=False)
            for cf in [Cfg("U", 2, 1, 1, "F"), Cfg("D", 2, 8, 1, "F"), Cfg("U", 2, 8, 1, "I"), Cfg("D", 4, 8, 1, "I")]:
                giant_case(None, s, i2, cf, "%s-giant2-%r" % (v, cf), (1 << 31) + 128, rng, gold=False)
            c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]]})
        run_stream_check(c, exes[v], s, None, aspects=["heap"], name=v, parts=3)
        if c.violations:
            break
    c.assumptions = ["heap use is observed at malloc/calloc/realloc/memalign/free of the process (std build); the asan build detects double frees and use after free"]
    return c.finish()
