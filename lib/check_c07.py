"""C07: pass band and stop band."""
from kernels import *


def main():
    c = Check("C07")
    rng = c.rng
    variants = ["std", "nosse"] + ([] if QUICK else ["o3lib", "clang", "clanglib", "v3"])
    exes = build_many(variants)
    low = {}
    for v in variants:
        cfgs = configs() if v == "std" else configs(sse=(1,))
        s = kernel_script(cfgs, rng)
        s.stream(90, "lcg 11 %d 4" % (8 * 3000), fmt="n")
        # constant input
        dcs = {}
        for cf in cfgs:
            u = cf.unit()
            n = (200 if cf.f == "F" else 2200) * u
            s.stream(91, "i 1 %d %s" % (8 * 2200, " ".join(["1"] * 8 * 2200)), fmt="b") if 91 not in [x["sid"] for x in s.streams] else None
            ops, off = ["new 0 " + cf.args(), "p 0 90 0 %d 0 0 m" % (100 * u), "r 0"], 0
            while off < n:
                k = min(n - off, rng.choice((1, 8, 33, 256, 1100)) * u)
                ops.append("p 0 91 %d %d %d 0 m" % (off, k, rng.randrange(4)))
                off += k
            dcs["dc-%r" % cf] = cf
            s.case("dc-%r" % cf, ops, **cf.d())

        def records(path):
            raw = list(read_cases(path))
            recs = [{"k": "crash", "case": [h["id"]]} for h, e in raw if any(q["e"] == "crash" for q in e)]
            K, bad = read_kernels_from([x for x in raw if x[0]["id"].startswith("imp")])
            const = {}
            for h, e in raw:
                if h["id"] in dcs:
                    cf = dcs[h["id"]]
                    y = f32([b for q in e if q["e"] == "p" and q["sid"] == 91 for b in q["y"]])
                    tail = y[-cf.out(32 * cf.unit()):]
                    const[cf.key()] = int(min(2e9, round(float(np.max(np.abs(tail - 1))) * 1e9))) if len(tail) and np.all(np.isfinite(tail)) else 2000000000
            for k, x in K.items():
                if not np.all(np.isfinite(x["g"])):
                    recs.append({"k": "crash", "case": [x["head"]["id"]]})
                    continue
                pas, stop, dc, dcp = spectrum(x, k[0], k[1])
                recs.append({"k": "spectrum", "m": k[0], "r": k[1], "p": k[2], "s": k[3], "f": k[4], "pass": pas, "stop": stop, "dc": dc, "dcp": max(dcp, const.get(k, 2000000000)), "case": ["imp-%r-0" % Cfg(*k), "dc-%r" % Cfg(*k)]})
            return recs
        recs = run_measure_check(c, exes[v], s, records, v, parts=2)
        if v == "std":
            c.sample([r for r in recs if r["k"] == "spectrum"][7])
            for r in recs:
                if r["k"] == "spectrum" and r["p"] > 1:
                    q = low.setdefault("%s%d" % (r["f"], r["p"]), [10 ** 9, 0])
                    q[0], q[1] = min(q[0], r["stop"]), max(q[1], r["pass"])
        if c.violations:
            break
    c.cov["measured_min_stop_mdB_max_pass_udB"] = low
    c.assumptions = ["spectra from impulse responses of the real code (float bits), bins of at most 5.4 Hz; linearity and time invariance are decided by C05"]
    return c.finish()
