"""C02: process_block touches exactly its input block and exactly fills its output block."""
from stream import *


def main():
    c = Check("C02")
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, "std")
        fa = ex.submit(build, "asan")
        fp = ex.submit(load_plan, c, 6, not QUICK, True)
        fi = ex.submit(prove, c)
        exe, asan, plan = fb.result(), fa.result(), fp.result()
        fi.result()
    rng = c.rng
    scripts = []
    for variant in ("std", "asan"):
        s = Script(limit=60)
        ids = Sids((s,))
        st = {u: ids.add("lcg %d %d 4" % (SEED * 31 + u, 9000 * u), 9000 * u, fmt="n") for u in (1, 2, 4, 8)}
        nf = {u: ids.add(poison(rng, 300 * u), 300 * u, fmt="n", fin=0) for u in (1, 2, 4, 8)}
        big = {u: ids.add("lcg %d %d 4" % (SEED * 37 + u, 66500 * u), 66500 * u, fmt="n") for u in (1, 2, 4, 8)}
        n = 0
        for cf in configs() + configs(ratios=(1,), precs=[1, 8, 24] if QUICK else None):
            u = cf.unit()
            sizes = block_sizes(cf, plan)
            if variant == "asan" and QUICK:
                sizes = [x for x in sizes if rng.random() < 0.3]
            # every class, flush with an inaccessible page at the end / begin of input and output
            for place in ("e", "b", "x", "y") if variant == "std" else ("m", "e"):
                bl = list(sizes)
                rng.shuffle(bl)
                if QUICK and place in "xy":
                    bl = bl[::3]
                bl += [(-(-q // u) * u, 0) for q in (rng.sample(LONG[:6], 1) if QUICK else LONG)]
                ops, off = ["new 0 " + cf.args()], 0
                for q, (k, al) in enumerate(bl):
                    if off + k > 9000 * u:
                        ops.append("r 0")
                        off = 0
                    ops.append("p 0 %d %d %d %d %d %s" % (st[u], off, k, al, rng.randrange(4), "z" if k == 0 and q % 2 else place))
                    off += k
                s.case("%s-%r-%s" % (variant, cf, place), ops, **cf.d())
                n += 1
            # not finite samples, and alignments of both buffers
            ops = ["new 0 " + cf.args()]
            off = 0
            for ia in range(4):
                for oa in range(4):
                    k = rng.choice([2, 5, 9, 18]) * u
                    ops.append("p 0 %d %d %d %d %d m" % (nf[u], off, k, ia, oa))
                    off += k
            s.case("%s-%r-al" % (variant, cf), ops, **cf.d())
            # finite samples, surrounded by NaN, behind all path classes
            if variant == "std":
                ops, off = ["new 0 " + cf.args()], 0
                for k, al in sizes[::2] if QUICK else sizes:
                    if off + k > 9000 * u:
                        ops.append("r 0")
                        off = 0
                    ops.append("p 0 %d %d %d %d %d m" % (st[u], off, k, al, rng.randrange(4)))
                    off += k
                s.case("%s-%r-clean" % (variant, cf), ops, **cf.d())
        # every size, pairs and random sequences of sizes, a few samples before inaccessible memory
        if variant == "std":
            for cf in configs() + configs(ratios=(1,), precs=[8]):
                sweep_case(None, s, ids, cf, "%s-%r-sweep" % (variant, cf),
                           [("n", 1, 700, 1), ("n", 1, 700, 1), ("n", 701, 2100, 7), ("p", 1, 24, 1), ("x", 1, 60, 1)] if QUICK else
                           [("n", 1, 4200, 1), ("n", 1, 4200, 1), ("p", 1, 100, 1), ("x", 1, 5000, 1)], rng, 13000, fmt="n")
        # blocks of more than 2^16 samples
        for q, cf in enumerate(configs() + configs(ratios=(1,), precs=[8])):
            if not QUICK or (q + SEED) % 5 == 0:
                k = (65530 + rng.randrange(900)) * cf.unit()
                s.case("%s-%r-huge" % (variant, cf), ["new 0 " + cf.args(), "p 0 %d 0 %d %d %d %s" % (big[cf.unit()], k, rng.randrange(4), rng.randrange(4), rng.choice("mexy"))], **cf.d())
        if variant == "std":
            for cf in configs() + configs(ratios=(1,), precs=[8]):
                giant_case(None, s, ids, cf, "%s-%r-giant" % (variant, cf), ((1 << 22) if QUICK else (1 << 26)) + rng.randrange(1 << 16), rng, gold=False)
            for cf in [Cfg("U", 2, 1, 1, "F"), Cfg("D", 2, 8, 1, "F")] if QUICK else configs(ratios=(2, 8), precs=[8]):
                giant_case(None, s, ids, cf, "%s-%r-giant2" % (variant, cf), (1 << 31) + 128, rng, gold=False)
        scripts.append(s)
    c.sample({"case": list(scripts[0].cases)[0], "ops": scripts[0].cases[list(scripts[0].cases)[0]][:12]})
    run_stream_check(c, exe, scripts[0], None, aspects=["foot", "clean"], name="guard", parts=3)
    if not c.violations:
        run_stream_check(c, asan, scripts[1], None, aspects=["foot", "clean"], name="asan", parts=2)
    c.assumptions = ["accesses inside the page of a block but outside the block are seen for writes (canaries) and, for reads, only on the side flush with the inaccessible page"]
    return c.finish()
