"""C03: vector / scalar / aligned / build variants agree."""
from stream import *


def main():
    c = Check("C03")
    variants = ["std", "nosse", "clang", "o3lib", "o0", "clanglib", "v3", "fast"]
    with ThreadPoolExecutor(3) as ex:
        fn = ex.submit(build, "neon")
        fb = ex.submit(build_many, variants)
        fp = ex.submit(load_plan, c, 4)
        exes, plan = fb.result(), fp.result()
        try:
            exes["neon"] = fn.result()
            variants.append("neon")
        except CheckError as e:             # the stand-in for arm_neon.h has only the most common functions
            c.cov["skipped"] = "NEON code path: " + str(e)[-300:]
    rng = c.rng
    jobs = []
    for v in variants:
        g, s = Script(), Script()
        ids = Sids((g, s))
        for cf in configs(sse=(0,)):
            u = cf.unit()
            vec = Cfg(cf.m, cf.r, cf.p, 1, cf.f)
            sizes = block_sizes(vec, plan)
            for k in range(2 if QUICK else 8):
                total = (260 if k % 2 == 0 else 120) * u
                sd = ids.lcg(rng.getrandbits(30), total, 4, tol=400)
                big = [x for x in sizes if x[0] >= 14 * u] if k % 2 == 0 else sizes
                blocks = partition(rng, cf, big or sizes, total)
                twin_gold(g, cf, sd, [(n, 0) for n, al in blocks])
                for x in ((vec, cf) if v != "std" else (vec,)):
                    # alignment of input and output varies from call to call
                    b = [(n, rng.randrange(4)) for n, al in blocks]
                    s.case("%s-%r-%d" % (v, x, k), ["new 0 " + x.args()] + p_ops(x, 0, sd, b, rng=rng), **x.d())
                    if v == "std":
                        s.case("%s-%r-%d-same" % (v, x, k), ["new 0 " + x.args()] + p_ops(x, 0, sd, [(n, k) for n, al in blocks], oal=3 - k % 4), **x.d())
            # sparse impulses show the smallest coefficients
            total = 150 * u
            pos = sorted(rng.sample(range(total), 5))
            sd = ids.add("i 1 %d %s" % (total, " ".join("1" if q in pos else "0" for q in range(total))), total, slack=1)
            blocks = partition(rng, cf, sizes, total)
            twin_gold(g, cf, sd, [(n, 0) for n, al in blocks])
            s.case("%s-%r-imp" % (v, vec), ["new 0 " + vec.args()] + p_ops(vec, 0, sd, blocks, rng=rng), **vec.d())
        # all sizes and random sequences of sizes in the vector and the scalar code
        for cf in configs(sse=(0,)):
            vec = Cfg(cf.m, cf.r, cf.p, 1, cf.f)
            sw = [("n", 1, 300, 1), ("l", 1, 60, 1), ("x", 1, 40, 1)] if QUICK else [("n", 1, 2200, 1), ("l", 1, 600, 1), ("x", 1, 2000, 1)]
            for x in ((vec,) if QUICK else (vec, cf)):
                sweep_case(g, s, ids, x, "%s-%r-sweep" % (v, x), sw, rng, 1600 if QUICK else 6800, gcfg=cf)
        # blocks of millions of samples
        for q, cf in enumerate(configs(sse=(0,))):
            if not QUICK or (q + SEED) % 3 == 0:
                vec = Cfg(cf.m, cf.r, cf.p, 1, cf.f)
                giant_case(g, s, ids, vec, "%s-%r-giant" % (v, vec), ((1 << 21) if QUICK else (1 << 27)) + rng.randrange(1 << 16), rng, gcfg=cf)
        s.case("%s-selftest" % v, ["tfi"])      # the library's own self test has to succeed on every build
        jobs.append((v, g, s))
    c.sample({"case": list(jobs[0][2].cases)[0], "ops": jobs[0][2].cases[list(jobs[0][2].cases)[0]][:12]})
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda j: run_stream_check(c, exes[j[0]], j[2], j[1], aspects=["out"], name=j[0], sseblind=1, gexe=exes["std"], parts=2), jobs))
    c.assumptions = ["reference: scalar path of the g++ -O2 header-only build with aligned buffers, same block sizes", "tolerance 6e-6 for inputs in [-4,4]; for unit impulses 1e-6 of the largest output nearby"]
    return c.finish()
