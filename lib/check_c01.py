"""C01: block partition invariance."""
from stream import *


def main():
    c = Check("C01")
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, "std")
        fm = ex.submit(c.contract, ["short", "empty"], (1,) if QUICK else (1, 2))
        fk = ex.submit(c.model, "Cascade", "Cascade", workers=2)
        fi = ex.submit(prove, c)
        plan = load_plan(c, deep=not QUICK, refine=True)
        exe = fb.result()
        fm.result(), fk.result(), fi.result()
    g, s = Script(limit=100), Script(limit=100)
    lens = {}
    base = 400 if QUICK else 700
    sid = 0
    for u in (1, 2, 4, 8):            # one stream per unit size: base units of input
        sid += 1
        lens[sid] = base * u
        for sc in (g, s):
            sc.stream(sid, "lcg %d %d 4" % (SEED * 7919 + sid, base * u), tol=400)
    sids = {1: 1, 2: 2, 4: 3, 8: 4}
    longn = 7000
    for u in (1, 2, 4, 8):            # long streams, sparsely logged
        for sc in (g, s):
            sc.stream(10 + u, "lcg %d %d 4" % (SEED * 104729 + u, longn * (1 if u == 1 else 2) // u * u), mod=128, win=16, tol=400)
        lens[10 + u] = longn * (1 if u == 1 else 2) // u * u
    cfgs = configs()
    ids = Sids((g, s), first=100)
    # single blocks of more than 2^31 samples (and almost 2^32): 2 to 20 seconds each
    big = [(cf, n) for cf in cfgs for n in ((1 << 31) + 128, (1 << 32) - 8) if cf.p in (1, 24) or not QUICK]
    if QUICK:
        big = [(Cfg("U", 2, 1, 1, "F"), (1 << 31) + 96), (Cfg("U", 2, 1, 0, "F"), (1 << 31) + 96)] + [(Cfg("U", 2, 1, 1, "F"), (1 << 32) - 8)]
    for q, (cf, n) in enumerate(big):
        forget = 2000 * cf.unit() if cf.f == "I" else 100 * cf.unit()
        sd = ids.add("per %d 0 1024 %d 4" % (SEED * 7 + q, forget // 1024 + 3), (forget // 1024 + 3) * 1024)
        gold_cases(g, [cf], [sd], ids.len, feed=1024)
        s.case("%r-giant%d" % (cf, q), ["new 0 " + cf.args(), "giant 0 %d %d 1024 64" % (sd, n)], **cf.d())
    n = 0
    for cf in cfgs:
        u = cf.unit()
        sd = sids[u]
        gold_cases(g, [cf], [sd], lens)
        sizes = block_sizes(cf, plan)
        for k in range(1 if QUICK else 6):
            s.case("%r-mix%d" % (cf, k), ["new 0 " + cf.args()] + p_ops(cf, 0, sd, partition(c.rng, cf, sizes, lens[sd]), rng=c.rng), **cf.d())
        s.case("%r-ones" % cf, ["new 0 " + cf.args()] + p_ops(cf, 0, sd, [(u, q % 4) for q in range(100 if QUICK else 300)], rng=c.rng), **cf.d())
        if QUICK and c.rng.random() > 0.35 and not (cf.m == "D" and cf.r == 2 and cf.s):
            continue
        gold_cases(g, [cf], [10 + u], lens)
        for k in range(1 if QUICK else 4):
            long = c.rng.sample(LONG, 4)
            s.case("%r-long%d" % (cf, k), ["new 0 " + cf.args()] + p_ops(cf, 0, 10 + u, partition(c.rng, cf, sizes[-12:], lens[10 + u], long), rng=c.rng), **cf.d())
    # blocks of more than 2^16 samples, and more than 2^16 calls
    for u in (1, 2, 4, 8):
        n = 70001 if u == 1 else 2 * 66000 // u * u
        for sc in (g, s):
            sc.stream(20 + u, "lcg %d %d 4" % (SEED * 15485863 + u, n + 2000 * u), mod=1024, win=16, tol=400)
        lens[20 + u] = n + 2000 * u
    for q, cf in enumerate(cfgs):
        u = cf.unit()
        if QUICK and cf.r > 2 and (q + SEED) % 3:
            continue
        gold_cases(g, [cf], [20 + u], lens, feed=1024)
        ops = ["new 0 " + cf.args()] + p_ops(cf, 0, 20 + u, [(64 * u, 1), (lens[20 + u] - 2000 * u, q % 4), (1000 * u, 0)], rng=c.rng)
        s.case("%r-huge" % cf, ops, **cf.d())
    for q, cf in enumerate(cfgs):
        soak_case(g, s, ids, cf, "%r-calls" % cf, 1, 1100000 if QUICK else 5000000, c.rng)
    # all sizes, all pairs of small sizes, every size before a block of any size, random sequences
    for cf in cfgs:
        sweep_case(g, s, ids, cf, "%r-sweep" % cf,
                   [("n", 1, 2100, 1), ("p", 1, 64 if cf.f == "F" and cf.r == 2 and cf.p >= 16 else 48, 1), ("l", 1, 1100, 1), ("x", 1, 300, 1)] if QUICK else
                   [("n", 1, 4200, 1), ("p", 1, 140, 1), ("l", 1, 4200, 1), ("x", 1, 20000, 1)], c.rng, 6500 if QUICK else 13000)
    c.sample({"case": next(iter(s.cases)), "ops": s.cases[next(iter(s.cases))][:12]})
    run_stream_check(c, exe, s, g, aspects=["out"])
    c.assumptions = ["outputs compared in 26-bit fixed point with a tolerance of 6e-6 for inputs in [-4,4]"]
    return c.finish()
