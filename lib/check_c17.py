"""C17: up and down again."""
from kernels import *


def main():
    c = Check("C17")
    rng = c.rng
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, "std")
        fm = ex.submit(c.model, "RoundTrip", "RoundTrip", workers=4)
        exe = fb.result()
        fm.result()
    s = Script(limit=60)
    freqs = [60.0, 997.0, 5000.0, 11025.0, 15501.0, 17990.0]
    N = {"F": 700, "I": 2600}
    for q, hz in enumerate(freqs):
        s.stream(q + 1, "sine %r 44100 %d 1 0.7" % (hz, 2600), fmt="b")
        s.stream(q + 31, "sine %r 44100 %d 1 0.7" % (hz, 72000), fmt="b")
    s.stream(90, "lcg 3 4000 4", fmt="n")
    s.stream(91, "lcg 3 4000 4", fmt="b")
    info = {}

    def case(up, dn, q, long=False):
        n = 72000 if long else N[up.f]
        ops = ["new 0 " + up.args(), "new 1 " + dn.args(), "q 0", "q 1"]
        if rng.random() < 0.4:      # used before
            ops += ["chain 0 1 90 0 %d" % rng.choice((5, 64, 1300)), "r 0", "r 1"]
        off = 0
        while off < n:
            k = min(n - off, (2500 if off == 0 else 66000 if off == 2500 else rng.choice((1, 500, 700))) if long else rng.choice((0, 1, 2, 3, 7, 16, 64, 100, 511, 1024, 1025, 2048)))
            ops.append("chain 0 1 %d %d %d" % ((q + 31) if long else q + 1, off, k))
            off += k
        cid = "rt-%r-%r-%d%s" % (up, dn, freqs[q], "-long" if long else "")
        info[cid] = (up, dn, freqs[q])
        s.case(cid, ops)
    for f in "FI":
        for r in (2, 4, 8):
            ps = [8, 12, 16, 20, 24]
            for pu in ps:
                for sse in (1, 0):
                    case(Cfg("U", r, pu, sse, f), Cfg("D", r, pu, sse, f), rng.randrange(len(freqs)), True)
            for pu in ps:
                for pd in ps:
                    if pu != pd and QUICK and rng.random() > 0.3:
                        continue
                    qs = range(len(freqs)) if pu == pd or not QUICK else rng.sample(range(len(freqs)), 2)
                    for q in qs:
                        for su, sd in ([(1, 1), (0, 0)] if pu == pd else []) + ([(1, 0), (0, 1)] if not QUICK else [(rng.randrange(2), rng.randrange(2))]):
                            case(Cfg("U", r, pu, su, f), Cfg("D", r, pd, sd, f), q)

    def records(path):
        recs = []
        for h, evs in read_cases(path):
            if any(e["e"] == "crash" for e in evs):
                recs.append({"k": "crash", "case": [h["id"]]})
                continue
            up, dn, hz = info[h["id"]]
            d = [e["d"] for e in evs if e["e"] == "q"]
            ch = [e for e in evs if e["e"] == "chain" and e["sid"] != 90]
            y = f32([b for e in ch for b in e["y"]])
            nin = sum(e["n"] for e in ch)
            errs = sum((e["err"] != 0) + (e["w1"] != e["n"] * up.r) + (e["w2"] != e["n"]) + (e["x"] != 0) for e in evs if e["e"] == "chain")
            D = d[0] / up.r / 1e6 + d[1] / 1e6
            skip = 160 if up.f == "F" else 2000
            k = np.arange(skip, len(y))
            w = 2 * np.pi * hz / 44100
            if len(y) > skip + 50 and np.all(np.isfinite(y)):
                err = mdb(np.max(np.abs(y[skip:] - np.sin(w * (k - D) + 0.7))))
                a, res = fit_tone(y[skip:], hz, 44100, skip)
                fit = mdb(abs(abs(a) - 1) + res)
                ph = (0.7 - np.angle(a) - w * D + np.pi) % (2 * np.pi) - np.pi
                dev = int(round(ph / w * 1e6))
            else:
                err = fit = dev = 2000000
            recs.append({"k": "round", "r": up.r, "f": up.f, "pu": up.p, "pd": dn.p, "su": up.s, "sd": dn.s, "hz": int(hz), "nin": nin, "nout": len(y), "errs": errs, "err": err, "fit": fit, "dev": dev, "case": [h["id"]]})
        return recs
    recs = run_measure_check(c, exe, s, records, "round")
    c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:12]})
    worst = {}
    for r in recs:
        if r["k"] == "round":
            q = worst.setdefault("%s%d" % (r["f"], min(r["pu"], r["pd"])), [-10 ** 9, -10 ** 9, 0])
            q[0], q[1] = max(q[0], r["err"]), max(q[1], r["fit"])
            if r["hz"] < 1000:
                q[2] = max(q[2], abs(r["dev"]))
    c.cov["worst_err_fit_mdB_dev_usamples"] = worst
    c.assumptions = ["tones of amplitude 1 after settling; error in milli dB below full scale"]
    return c.finish()
