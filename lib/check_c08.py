"""C08: FIR upsampling keeps the input samples bit by bit; ratio 1 copies."""
import struct
from stream import *

SPECIAL = [0, -2147483648, 1, -2147483647, 0x007fffff, 0x00800000, 0x7f7fffff, -8388609, 0x3f800001, -0x40800001 + 0, 0x33800000]
INF = [0x7f800000, -8388608]
NAN = [0x7fc00000, 0x7fc12345, -4194304, 0x7fffffff]


def bits_stream(rng, n, ratio):
    res = []
    for k in range(n):
        q = rng.random()
        if q < 0.25:
            res.append(rng.choice(SPECIAL))
        elif q < 0.30 and (ratio == 1 or (k and res[-1] not in INF)):
            res.append(rng.choice(INF + (NAN if ratio == 1 else [])))
        elif q < 0.75:
            res.append(struct.unpack("<i", struct.pack("<f", rng.uniform(-1, 1)))[0])
        else:
            b = rng.getrandbits(32) - 2 ** 31
            res.append(b if (b & 0x7f800000) != 0x7f800000 else b & ~0x40000000)
    if ratio > 1:          # infinities only with finite neighbours
        for k in range(1, n):
            if res[k] in INF and res[k - 1] in INF:
                res[k] = 1
    return res


def main():
    c = Check("C08")
    variants = ["std", "nosse"] + ([] if QUICK else ["clang", "o3lib", "v3", "o0"])
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_many, variants)
        plan = load_plan(c)
        exes = fb.result()
    rng = c.rng
    for v in variants:
        s = Script(limit=60)
        nsid = [0]

        def stream(total, vals):
            nsid[0] += 1
            s.stream(nsid[0], "b %d %s" % (total, " ".join(map(str, vals))), fmt="b")
            s.streams[-1].update(x=vals)
            return nsid[0]
        for cf in configs(modes="U", filters="F", sse=(1, 0) if v == "std" else (1,)):
            sizes = block_sizes(cf, plan)
            for k in range(2 if QUICK else 12):
                total = 300 if cf.r < 8 or not QUICK else 200
                sd = stream(total, bits_stream(rng, total, cf.r))
                ops = ["new 0 " + cf.args(), "q 0"]
                if k % 2:
                    ops += p_ops(cf, 0, sd, partition(rng, cf, sizes, 60), rng=rng) + ["r 0"]
                ops += p_ops(cf, 0, sd, partition(rng, cf, sizes, total), rng=rng)
                s.case("%s-%r-%d" % (v, cf, k), ops, **cf.d())
            total = {2: 3000, 4: 1600, 8: 1300}[cf.r]       # blocks beyond the internal chunk
            if QUICK and (not cf.s or v != "std"):
                continue
            sd = stream(total, bits_stream(rng, total, cf.r))
            s.case("%s-%r-big" % (v, cf), ["new 0 " + cf.args(), "q 0"] + p_ops(cf, 0, sd, [(5, 1), (total - 105, 1), (100, 0)]), **cf.d())
        for m in "UD":
            for f in "FI":
                for sse in (0, 1):
                    for p in (8, 24):
                        cf = Cfg(m, 1, p, sse, f)
                        total = 2500
                        sd = stream(total, bits_stream(rng, total, 1))
                        b = partition(rng, cf, [(n, a) for n in (0, 1, 2, 3, 5, 8, 17) for a in range(4)] + [(700, 1), (1025, 0)], total)
                        s.case("%s-%r" % (v, cf), ["new 0 " + cf.args(), "q 0"] + p_ops(cf, 0, sd, b, rng=rng), **cf.d())
        # bit patterns in order: all of them for some configurations, all signs, exponents and leading bits for every configuration
        for q, cf in enumerate(configs(ratios=(1,), filters="FI", precs=(8,), sse=(1,)) + configs(modes="U", filters="F", sse=(1, 0) if v == "std" else (1,))):
            whole = v == "std" and repr(cf) in ("U1F8v", "D1F8v", "U2F1v", "U2F8v") if QUICK else cf.r == 1 or v in ("std", "nosse") and (cf.r == 2 or cf.p == 1)
            step = 1 << 28
            for p in range(16) if whole else []:
                s.case("%s-%r-all%d" % (v, cf, p), ["new 0 " + cf.args(), "q 0", "copyall 0 %d %d %d 1" % (p * step, (p + 1) * step - 1, (1000, 700, 4096)[(p + q) % 3])], **cf.d())
            cnt = 24 if QUICK else 600
            n = 1 << 14
            s.case("%s-%r-runs" % (v, cf), ["new 0 " + cf.args(), "q 0"] + ["copyall 0 %d %d 300 4095" % (rng.randrange(4095), (1 << 32) - 1)] + ["copyall 0 %d %d -70000 4093" % (rng.randrange(4093), (1 << 32) - 1)] + ["copyall 0 %d %d -3000 1" % (0x3e000000, 0x3e000000 + (17 << 20) if v == "std" and cf.s else 0x3e000000 + (1 << 21))] + ["copyall 0 %d %d 500 1" % (x, x + n - 1) for x in [rng.getrandbits(32 - 14) << 14 for _ in range(cnt)]], **cf.d())
        if v == "std":
            c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:12]})
        run_stream_check(c, exes[v], s, None, aspects=["out"], name=v, module="CopyTrace", parts=3,
                         params=lambda p: open(p, "w").write(json.dumps({"streams": s.streams}) + "\n"))
        if c.violations:
            break
    c.assumptions = ["ratio 1: all bit patterns; upsampling: finite values and isolated infinities"]
    return c.finish()
