"""C04: after reset an object cannot be told from a new one."""
from stream import *


def main():
    c = Check("C04")
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, "std")
        fp = ex.submit(load_plan, c, 6)
        fm = ex.submit(c.contract, ["reset"], (1,) if QUICK else (1, 2))
        per = 4 if QUICK else 24
        cfgs = configs()
        fh = ex.submit(histories, c, per * len(cfgs), 14, 1, 1, 12, ["p", "p", "p", "poison", "r", "q", "new"])
        exe, plan, hs, _ = fb.result(), fp.result(), fh.result(), fm.result()
    g, s = Script(limit=100), Script(limit=100)
    ids = Sids((g, s))
    rng = c.rng
    k = 0
    for cf in cfgs:
        u = cf.unit()
        sizes = block_sizes(cf, plan)
        junk = {1: ids.lcg(rng.getrandbits(30), 3000 * u, 1 << 20, fin=0), 2: ids.add(poison(rng, 400 * u), 400 * u, fin=0)}
        for q in range(per):
            h = hs[k]
            k += 1
            ops, off, sid, cls = ["new 0 " + cf.args()], 0, None, [sizes[rng.randrange(len(sizes))] for _ in range(12)]
            if q % 2:          # histories of short (or long) blocks only
                lim = rng.choice((1, 2, 4, 8, 16)) * u
                cls = [rng.choice([x for x in sizes if (x[0] <= lim if q % 4 == 1 else x[0] >= 40 * u)] or sizes) for _ in range(12)]
            for st in h[1:]:
                if st[0] == "p":
                    if st[2] != sid:
                        sid, off = st[2], 0
                    n, al = cls[st[3]]
                    n = min(n, ids.len[junk[sid]] - off) // u * u
                    ops += p_ops(cf, 0, junk[sid], [(n, al)], off, rng=rng)
                    off += n
                elif st[0] == "r":
                    ops.append("r 0")
                    off, sid = 0, None
                elif st[0] == "q":
                    ops.append("q 0")
            # some reset has to come before the comparison with the fresh twin
            ops.append("r 0")
            if rng.random() < 0.3:
                ops.append("r 0")
            total = (130 if cf.f == "F" else 90) * u
            sd = ids.lcg(rng.getrandbits(30), total, 4)
            blocks = partition(rng, cf, sizes, total)
            ops += p_ops(cf, 0, sd, blocks)
            twin_gold(g, cf, sd, blocks)
            s.case("%r-%d" % (cf, q), ops, **cf.d())
        # reset of a new object, and reset twice in the middle of a stream
        sd = ids.lcg(rng.getrandbits(30), 60 * u, 4)
        b = partition(rng, cf, sizes, 60 * u)
        twin_gold(g, cf, sd, b)
        s.case("%r-new" % cf, ["new 0 " + cf.args(), "r 0"] + p_ops(cf, 0, sd, b) + ["r 0"] + p_ops(cf, 0, sd, b), **cf.d())
    # a history of any length before the reset
    for cf in cfgs:
        u = cf.unit()
        for q in range(2):
            j = ids.lcg(rng.getrandbits(30), 4200 * u, 1 << 20, fmt="n") if q else ids.add(poison(rng, 700 * u), 700 * u, fin=0, fmt="n")
            top = (2100 if QUICK else 4200) if q else (300 if QUICK else 700)
            sweep_case(g, s, ids, cf, "%r-resets%d" % (cf, q), [("r", 1, top, 1)], rng, 200, junk=j)
    # a reset after a very long block
    for cf in cfgs:
        u = cf.unit()
        sd = ids.lcg(rng.getrandbits(30), 60 * u, 4)
        b = partition(rng, cf, block_sizes(cf, plan), 60 * u)
        twin_gold(g, cf, sd, b)
        giant_case(g, s, ids, cf, "%r-giant" % cf, ((1 << 21) if QUICK else (1 << 27)) + rng.randrange(1 << 16), rng, gold=False, more=["r 0"] + p_ops(cf, 0, sd, b))
    # resets after as many samples, or calls, as make a counter start again
    for cf in cfgs:
        u = cf.unit()
        sd = ids.lcg(rng.getrandbits(30), 60 * u, 4)
        b = partition(rng, cf, block_sizes(cf, plan), 60 * u)
        twin_gold(g, cf, sd, b)
        z = giant_case(g, s, ids, cf, "%r-wrap" % cf, 1 << 19, rng, gold=False, more=["r 0"] + p_ops(cf, 0, sd, b))
        if not QUICK and cf.p in (8, 1) and cf.r == 2 or repr(cf) in ("U2F8v", "D2F8v", "D2I8v"):
            s.case("%r-wrap32" % cf, ["new 0 " + cf.args(), "giant 0 %d %d 1024 64" % (z, 1 << 31), "giant 0 %d %d 1024 64" % (z, 1 << 31), "r 0"] + p_ops(cf, 0, sd, b), **cf.d())
        for q, calls in enumerate((256, 65536)):
            k = ids.add("per %d 0 %d 128 4" % (rng.getrandbits(30), 16 * u), 2048 * u, fin=0, mod=65536)
            s.streams[-1]["per"] = {"off": 0, "n": 16 * u}
            # 5 calls before; the samples have another count than the calls
            s.case("%r-calls%d" % (cf, calls), ["new 0 " + cf.args()] + ["p 0 %d %d %d 0 0 m" % (k, j * 400 * u, 400 * u) for j in range(5)]
                   + ["soak 0 %d 0 %d %d %d" % (k, 16 * u, u, (calls - 5) // 16 * 16 * u)] + ["p 0 %d %d %d 0 0 m" % (k, 2000 * u + j * u, u) for j in range((calls - 5) % 16)] + ["r 0"] + p_ops(cf, 0, sd, b), **cf.d())
    # many resets
    for cf in cfgs:
        u = cf.unit()
        n = rng.choice((1, 3, 8, 20)) * u
        sd = ids.lcg(rng.getrandbits(30), 60 * u, 4)
        b = [(n, 0)] + partition(rng, cf, sizes, 60 * u - n)
        twin_gold(g, cf, sd, b)
        s.case("%r-wear" % cf, ["new 0 " + cf.args(), "wear 0 %d %d %d" % (sd, n, 70000 if QUICK else 1500000)] + p_ops(cf, 0, sd, b), **cf.d())
    c.sample({"case": list(s.cases)[1], "ops": s.cases[list(s.cases)[1]][:14]})
    run_stream_check(c, exe, s, g, aspects=["out", "qconst"])
    return c.finish()
