"""C06: delay()."""
from kernels import *


def main():
    c = Check("C06")
    rng = c.rng
    cfgs = configs()
    variants = ["std", "nosse"] + ([] if QUICK else ["o3lib", "clang"])
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_many, variants)
        fm = ex.submit(c.model, "Cascade", "Cascade", workers=4)
        exes = fb.result()
        fm.result()
    for v in variants:
        mine = cfgs if v == "std" else [x for x in cfgs if x.s]
        s = kernel_script(mine, rng)
        s.stream(90, "lcg 7 64 4", fmt="n")
        for m in "UD":            # ratio 1
            for f in "FI":
                s.case("one-%s%s" % (m, f), ["new 0 %s 1 24 1 %s" % (m, f), "q 0", "p 0 90 0 64 0 0 m", "q 0", "r 0", "q 0"], ph=0, m=m, r=1, p=24, s=1, f=f)
        # tones of low and medium frequency, objects used before, reset, random blocks
        tones = {}
        sid = 100
        for cf in mine:
            u = cf.unit()
            for hz in ((100.0, 7350.0) if cf.f == "F" else (100.0, 400.0)):
                if cf.p == 1 and hz > 1000:
                    continue
                sid += 1
                N = (600 if cf.f == "F" else 2600) * u
                s.stream(sid, "sine %r %d %d 1 0.3" % (hz, 44100 * u, N), fmt="b")
                ops, off = ["new 0 " + cf.args(), "p 0 90 0 %d 0 0 m" % (8 * u), "r 0", "q 0"], 0
                while off < N:
                    k = min(N - off, rng.choice((1, 2, 17, 64, 130, 1024)) * u)
                    ops.append("p 0 %d %d %d %d 0 m" % (sid, off, k, rng.randrange(4)))
                    off += k
                cid = "tone-%r-%d" % (cf, hz)
                tones[cid] = (cf, hz)
                s.case(cid, ops, **cf.d())

        def records(path):
            recs = []
            raw = list(read_cases(path))
            K, bad = read_kernels_from([x for x in raw if x[0]["id"].startswith("imp")])
            for h, e in bad:
                recs.append({"k": "crash", "case": [h["id"]]})
            for k, x in K.items():
                h = x["head"]
                d = x["d"]
                g = q26(x["g"]) if k[4] == "F" else []
                if g:                                 # without the zeros at the end
                    n = len(g)
                    while n > 1 and abs(g[n - 1]) <= 2:
                        n -= 1
                    g = g[:n]
                alld = {y[0] for ph in x["phases"].values() for y in ph[1]}
                recs.append({"k": "delay", "m": k[0], "r": k[1], "p": k[2], "s": k[3], "f": k[4], "d": d[0][0], "dlater": d[0][0] if alld == {d[0][0]} else -1,
                             "g": g, "goff": x["off"], "gd": moment(x), "case": [h["id"]]})
            for h, e in raw:
                if any(q["e"] == "crash" for q in e):
                    recs.append({"k": "crash", "case": [h["id"]]})
                    continue
                ds = [q["d"] for q in e if q["e"] == "q"]
                if h["id"].startswith("one"):
                    recs.append({"k": "delay", "m": h["m"], "r": 1, "p": h["p"], "s": h["s"], "f": h["f"], "d": ds[0], "dlater": ds[0] if len(set(ds)) == 1 else -1, "g": [], "goff": 0, "gd": 0, "case": [h["id"]]})
                elif h["id"] in tones:
                    cf, hz = tones[h["id"]]
                    y = f32([b for q in e if q["e"] == "p" and q["sid"] != 90 for b in q["y"]])
                    skip = len(y) * 2 // 3
                    rate = 44100.0 * (cf.r if cf.m == "U" else 1)
                    a, res = fit_tone(y[skip:], hz, rate, skip)
                    ph = (0.3 - np.angle(a) - 2 * np.pi * hz / rate * ds[0] / 1e6 + np.pi) % (2 * np.pi) - np.pi     # 0 if delayed by delay()
                    dev = ph / (2 * np.pi * hz / rate) * (1 if cf.m == "U" else cf.r)
                    recs.append(dict({"k": "tone", "dev": int(round(dev * 1e6)) if np.isfinite(dev) else 2147483647, "hz": int(hz), "case": [h["id"]]}, **cf.d()))
            return recs
        recs = run_measure_check(c, exes[v], s, records, v)
        if v == "std":
            c.sample({"case": "imp-U4F8v-0", "ops": s.cases["imp-U4F8v-0"][:8]})
            c.sample([r for r in recs if r["k"] == "tone"][0])
            c.cov["max_tone_deviation_usamples"] = max(abs(r["dev"]) for r in recs if r["k"] == "tone")
        if c.violations:
            break
    c.assumptions = ["delays in micro samples, kernels in 26-bit fixed point; IIR delays within 0.05 samples of the higher rate"]
    return c.finish()
