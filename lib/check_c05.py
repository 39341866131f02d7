"""C05: linear, causal, time-invariant."""
from stream import *


def main():
    c = Check("C05")
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, "std")
        plan = load_plan(c)
        exe = fb.result()
    rng = c.rng
    g, s = Script(), Script(limit=60)
    units = 300                    # length of the measured kernels and of the streams, in base-rate samples
    n0 = [100]
    imps = {}                      # sid -> (impulses, mod, win, fin, tol)
    lead = {}
    for q in range(8):             # the unit impulses
        n = 8 * 320
        g.stream(q, "i 1 %d %s" % (n, " ".join("1" if k == q else "0" for k in range(n))))

    def stream(total, imp, scale=0, fin=1, tol=300, mod=1, win=1):
        n0[0] += 1
        x = ["0"] * total
        for k, w in imp:
            x[k] = str(w)
        s.stream(n0[0], "i %s %d %s" % (repr(2.0 ** scale), total, " ".join(x)), mod=mod, win=win, fmt="q%d" % -scale, tol=tol)
        s.streams[-1].update(imp=[list(i) for i in imp], fin=fin)
        return n0[0]
    for u in (1, 2, 4, 8):         # long lead-in of small integers
        n0[0] += 1
        lead[u] = n0[0]
        s.stream(n0[0], "lcg %d %d 4" % (rng.getrandbits(30), 70000 * u), fmt="n")
        s.streams[-1].update(imp=[], fin=0, win=0)
    for cf in configs():
        u = cf.unit()
        sizes = block_sizes(cf, plan)
        for q in range(u):
            n = (units + 8) * u
            g.case("gold", ["new 0 " + cf.args()] + ["p 0 %d %d %d 0 0 m" % (q, k, min(64 * u, n - k)) for k in range(0, n, 64 * u)], sid=q, **cf.d())

        def sparse(total, k, lo=0):
            return [(p, rng.choice([-8, -5, -3, -1, 1, 2, 3, 5, 7])) for p in sorted(rng.sample(range(lo, total), k))]
        for k in range(1 if QUICK else 6):
            # sparse: few weighted impulses anywhere; amplitudes from tiny to huge
            for scale in (0, 40, -40) if not QUICK else (rng.choice((0, 0)), rng.choice((12, 40, 80, -20, -40, -90))):
                total = 220 * u
                sd = stream(total, sparse(total, 7), scale)
                s.case("sparse%d-%r-%d" % (scale, cf, k), ["new 0 " + cf.args()] + p_ops(cf, 0, sd, partition(rng, cf, sizes, total), rng=rng), **cf.d())
            # dense: every sample
            total = 44 * u
            sd = stream(total, [(p, rng.randrange(-4, 5)) for p in range(total)], tol=400)
            s.case("dense-%r-%d" % (cf, k), ["new 0 " + cf.args()] + p_ops(cf, 0, sd, partition(rng, cf, sizes, total), rng=rng), **cf.d())
        # time invariance: far into the stream
        if not QUICK or cf.s or rng.random() < 0.3:
            quiet = 2000 if cf.f == "I" else 250
            total = (quiet + 100) * u
            sd = stream(total, sparse(total, 6, quiet * u), mod=16, win=8)
            ops, off = ["new 0 " + cf.args()], 0
            L = (70000 if rng.random() < 0.25 or not QUICK else 20000) * u
            while off < L:
                n = min(L - off, rng.choice((4096, 1000, 777)) * u)
                ops.append("p 0 %d %d %d 0 0 m" % (lead[u], off, n))
                off += n
            ops += p_ops(cf, 0, sd, partition(rng, cf, sizes, total, (300, 500)), rng=rng)
            s.case("late-%r" % cf, ops, **cf.d())
    c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:14]})
    run_stream_check(c, exe, s, g, aspects=["out"], module="LtiTrace", parts=4)
    # periodic streams, far beyond any counter: every period gives the same output
    g2, s2 = Script(limit=100), Script(limit=100)
    ids = Sids((g2, s2), first=1)
    longest = {(cf.m, cf.r, cf.f, cf.s): cf.key() for cf in rng.sample(configs(), len(configs()))}.values()     # beyond 2^24 samples
    for q, cf in enumerate(configs()):
        soak_case(g2, s2, ids, cf, "soak-%r" % cf, rng.choice([777, 512, 1024, 300]), (17000000 // cf.unit() if cf.key() in longest else 600000) if QUICK else 20000000, rng, seg=rng.choice([97, 1009]), mod=64, win=16)
    run_stream_check(c, exe, s2, g2, aspects=["out"], name="soak", parts=8)
    c.assumptions = ["kernels measured on fresh objects in 26-bit fixed point; superposition evaluated by TLC; tolerance 1e-6 (sparse) / 6e-6 (dense) of unit input"]
    return c.finish()
