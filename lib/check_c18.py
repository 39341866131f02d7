"""C18: linear precision is exact."""
from stream import *


def main():
    c = Check("C18")
    variants = ["std", "nosse", "clang"] + ([] if QUICK else ["o3lib", "v3", "o0"])
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_many, variants)
        plan = load_plan(c)
        exes = fb.result()
    rng = c.rng
    for v in variants:
        s = Script(limit=60)
        nsid = [0]

        def stream(total, vals, grid):
            """integers * 2^grid; outputs in units of 2^grid / 2^10"""
            nsid[0] += 1
            unit = 1024 if max(map(abs, vals)) > 15 else 2 ** 26
            shift = (10 if unit == 1024 else 26) - grid - 26
            s.stream(nsid[0], "i %r %d %s" % (2.0 ** grid, total, " ".join(map(str, vals))), fmt="q%d" % shift)
            s.streams[-1].update(x=vals, unit=unit)
            return nsid[0]
        def lcg(seed, n, lev):                  # as the harness does
            x, res = seed & 0x7fffffff, []
            for k in range(n):
                x = (x * 1664525 + 1013904223) & 0xffffffff
                res.append((x >> 8) % (2 * lev + 1) - lev)
            return res

        def gen(kind, seed, n, mod=1, win=1, lead=0, per=0, reps=0):
            """streams the harness makes by itself"""
            nsid[0] += 1
            s.stream(nsid[0], ("lcg %d %d 4" % (seed, n)) if kind == "lcg" else "per %d %d %d %d 4" % (seed, lead, per, reps), mod=mod, win=win)
            x = lcg(seed, n if kind == "lcg" else lead + per, 4)
            s.streams[-1].update(x=x + x[lead:] * (reps - 1) if per and lead else x, unit=2 ** 26, per={"off": lead, "n": per})
            return nsid[0]
        for cf in configs(filters="F", precs=[1]):
            u = cf.unit()
            # all sizes, pairs and random sequences of blocks: exactly the same outputs
            sd = gen("lcg", rng.getrandbits(30), 6800 * u, mod=256, win=16)
            ops = ["new 0 " + cf.args()]
            for m, a, b, st in [("n", 1, 2100, 1), ("p", 1, 32, 1), ("l", 1, 600, 1), ("x", 1, 300, 1)] if QUICK else [("n", 1, 2100, 1), ("p", 1, 100, 1), ("l", 1, 2100, 1), ("x", 1, 5000, 1)]:
                ops.append("sweep 0 %d %d %s %d %d %d %d" % (sd, 6800 * u, m, a, b, st, rng.getrandbits(30)))
            s.case("%s-%r-sweep" % (v, cf), ops, **cf.d())
            # millions of samples in small blocks and in one block
            seg, lead = 97 * u, 5 * u
            sd = gen("per", rng.getrandbits(30), 0, mod=16, win=8, lead=lead, per=seg, reps=4)
            s.case("%s-%r-soak" % (v, cf), ["new 0 " + cf.args(), "p 0 %d 0 %d 0 0 m" % (sd, lead + 2 * seg)] + ["soak 0 %d %d %d %d %d" % (sd, lead, seg, b * u, n * u) for b, n in ((1, 3000000), (33, 20000000 if cf.s and v == "std" else 300000))]
                   + ["p 0 %d %d %d 1 0 m" % (sd, lead + 2 * seg, seg)], **cf.d())
            sd = gen("per", rng.getrandbits(30), 0, per=1024, reps=4)
            for n in [(1 << 22) + rng.randrange(1 << 16) // u * u] + ([(1 << 31) + 96] if v == "std" and (cf.m, cf.r, cf.s) == ("U", 2, 1) or not QUICK else []):
                s.case("%s-%r-giant%d" % (v, cf, n), ["new 0 " + cf.args(), "giant 0 %d %d 1024 64" % (sd, n)], **cf.d())
        for cf in configs(filters="F", precs=[1]):
            u = cf.unit()
            sizes = block_sizes(cf, plan)
            for k in range((8 if v == "std" else 3) if QUICK else 40):
                total = rng.choice((60, 150, 200)) * u
                kind = k % 4
                if kind == 0:
                    vals, grid = [rng.randrange(-15, 16) for _ in range(total)], 0
                elif kind == 1:
                    vals, grid = [rng.randrange(-32000, 32001) for _ in range(total)], rng.choice((0, -15, -24, 10))
                elif kind == 2:
                    vals, grid = [rng.choice((0, 0, 0, 0, 1, -1, 15)) for _ in range(total)], 0
                else:
                    vals, grid = [rng.choice((-15, 15)) for _ in range(total)], 0
                sd = stream(total, vals, grid)
                ops = ["new 0 " + cf.args()]
                if k % 2:
                    ops += p_ops(cf, 0, sd, [(16 * u, 0), (3 * u, 1)]) + ["r 0"]
                big = partition(rng, cf, sizes, total)
                s.case("%s-%r-%d" % (v, cf, k), ops + p_ops(cf, 0, sd, big, rng=rng), **cf.d())
            # blocks beyond every internal buffer
            total = 2600 * (1 if cf.m == "U" else 2)
            total = total // u * u
            sd = stream(total, [rng.randrange(-15, 16) for _ in range(total)], 0)
            s.case("%s-%r-big" % (v, cf), ["new 0 " + cf.args()] + p_ops(cf, 0, sd, [(total // u // 2 * u + u, 1), (total - total // u // 2 * u - u, 0)]), **cf.d())
        if v == "std":
            c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:12]})
        run_stream_check(c, exes[v], s, None, aspects=["out"], name=v, module="LinTrace", parts=2,
                         params=lambda p: open(p, "w").write(json.dumps({"streams": s.streams}) + "\n"))
        if c.violations:
            break
    c.assumptions = ["integer inputs (|x| <= 32000) times powers of two; outputs compared for equality"]
    return c.finish()
