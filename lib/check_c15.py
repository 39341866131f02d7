"""C15: the IIR designer and the tables that come from it."""
import math
from scipy.signal import lfilter
from kernels import *

CAP = 2000000000


def c31(x):
    return int(max(-CAP, min(CAP, round(x)))) if x == x else CAP


def mdb_(x):
    return c31(x * 1000)


def response(c, f):
    """complex responses of both branches"""
    z = np.exp(-2j * np.pi * np.asarray(f, float))
    z2, a = z * z, [np.ones_like(z), z.copy()]
    for i, x in enumerate(c):
        a[i % 2] = a[i % 2] * (x + z2) / (1 + x * z2)
    return a


def measure(c, tbw, att):
    """stop band attenuation of the half-band filter in milli dB; -1 where double precision does not suffice to tell"""
    if not (tbw >= 0.00999 and att <= 150 or tbw >= 0.00099 and att <= 60):
        return -1
    lo = 0.25 + tbw / 2
    f = np.concatenate([np.linspace(lo, 0.5, 2001), lo + (0.5 - lo) * np.logspace(-8, 0, 3001)])
    a, b = response(c, f)
    return mdb_(-20 * math.log10(max(np.max(np.abs(a + b)) / 2, 1e-15)))


def gdelay(c, f, ph=0, branch=0):
    """group delay of a branch from the phase of its response (a: sections in z^-2; ph: (a - z^-2)/(1 - a z^-2))"""
    tot, sg, z2 = 0.0, -1 if ph else 1, np.exp(-4j * np.pi * f)
    for x in c[branch::2]:
        if x == 1:
            continue
        r = (x + sg * z2) / (1 + sg * x * z2)
        dr = sg * (1 - x * x) / (1 + sg * x * z2) ** 2         # with respect to z2
        tot += (2 * z2 * dr / r).real
    return float(tot)


def shape(d):
    c = d["c"]
    return 1 if c and all(0 < x < 1 for x in c) and all(a < b for a, b in zip(c, c[1:])) else 0


def up(c, x):
    y = np.zeros(2 * len(x))
    for br in (0, 1):
        v = x
        for k in c[br::2]:
            v = lfilter([k, 1], [1, k], v)
        y[br::2] = v
    return y


def down(c, x):
    s = 0
    for br in (0, 1):
        v = x[1 - br::2]
        for k in c[br::2]:
            v = lfilter([k, 1], [1, k], v)
        s = s + v
    return s / 2


class Calls:
    """a batch of designer calls; results by key"""

    def __init__(self, c, exe, name):
        self.c, self.exe, self.name, self.lines = c, exe, name, []

    def add(self, key, line):
        op, rest = line.split(" ", 1)
        self.lines.append("%s %s %s" % (op, key, rest))

    def run(self):
        o = self.c.path(self.name + ".out")
        p = self.c.path(self.name + ".in")
        open(p, "w").write("\n".join(self.lines) + "\n")
        r = sh([self.exe, p, o], timeout=300)
        if r.returncode:
            raise CheckError("designer harness failed: " + r.stdout[-500:])
        res = {}
        for line in open(o):
            d = json.loads(line)
            res[d["id"]] = d
        if len(res) != len(self.lines):
            raise CheckError("designer log incomplete")
        return res


def main():
    c = Check("C15")
    rng = c.rng
    variants = ["std"] if QUICK else ["std", "clang", "asan", "o0"]
    cfgt = open(os.path.join(SPEC, "Bisect.cfg")).read()
    if not QUICK:
        cfgt = cfgt.replace("M = 5", "M = 7").replace("V = 7", "V = 10")
    with ThreadPoolExecutor(6) as ex:
        fb = {v: ex.submit(build, v, "designer.cc") for v in variants}
        fr = {v: ex.submit(build, v) for v in (["std", "nosse"] if QUICK else ["std", "nosse", "o3lib", "clang"])}
        fm = ex.submit(c.model, "Bisect: design by group delay", "Bisect", cfgtext=cfgt, workers=4, timeout=800)
        exes, rexes = {v: f.result() for v, f in fb.items()}, {v: f.result() for v, f in fr.items()}
        fm.result()
    N = 500 if QUICK else 4000
    designed = {}
    for v, exe in exes.items():
        # ---- pass 1
        k1 = Calls(c, exe, v + "1")
        specs, orders, gds, gls = {}, {}, {}, {}
        grid = [(a, t) for a in (0.01, 0.1, 0.5, 0.99, 1, 3, 6, 10, 20, 40, 48, 60, 72, 96, 100, 120, 144, 150) for t in (0.0001, 0.001, 0.01, 0.05, 0.0918, 0.1, 0.25, 0.4, 0.49)]
        for i in range(N):
            att, tbw = grid[i] if i < len(grid) else (10 ** rng.uniform(-2, 2.2), 10 ** rng.uniform(-3, -0.31))
            specs["s%d" % i] = (att, tbw)
            k1.add("s%d" % i, "coefs %r %r" % (att, tbw))
            k1.add("s%dn" % i, "nbr %r %r" % (att, tbw))
        for i in range(N):
            n, tbw = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16)), (10 ** rng.uniform(-2, -0.31) if rng.random() < 0.8 else 10 ** rng.uniform(-3, -2))
            orders["o%d" % i] = (n, tbw)
            k1.add("o%d" % i, "order %d %r" % (n, tbw))
            k1.add("o%da" % i, "att %d %r" % (n, tbw))
            k1.add("o%dm" % i, "att %d %r" % (n + 1, tbw))
            k1.add("o%dw" % i, "att %d %r" % (n, min(tbw * 1.1, 0.4999)))
        for i in range(N):
            x, f, ph = rng.choice((0.0, 1.0, 0.5, rng.random(), rng.random())), rng.choice((0.0, rng.uniform(0, 0.4999), 0.25)), rng.randrange(2)
            if x == 1.0 and rng.random() < 0.9:
                x = rng.random() * 0.95
            if x == 1.0:             # pole and zero cancel; undefined where they lie
                f = 0.1
            gds["d%d" % i] = ([x], f, ph, 1)
            k1.add("d%d" % i, "gd1 %r %r %d" % (x, f, ph))
            cs = [rng.uniform(0.01, 0.95) for _ in range(rng.randrange(1, 12))]
            gds["e%d" % i] = (cs, f, ph, 0)
            k1.add("e%d" % i, "gdn %r %d %s" % (f, ph, " ".join(map(repr, cs))))
        for i in range(N):
            n = rng.choice((1, 2, 3, 4, 5, 6, 8, 10))
            tlb = 10 ** rng.uniform(-1.9, -0.6) if rng.random() < 0.7 else 10 ** rng.uniform(-4, -2)
            tub = min(0.45, tlb * rng.choice((1.3, 2, 5)))
            t0 = tlb * (tub / tlb) ** rng.uniform(0.15, 0.85)
            f = rng.choice((0.0, 0.01, rng.uniform(0, 0.15)))
            gls["g%d" % i] = (n, tlb, tub, t0, f)
            for q, t in enumerate((tlb, tub, t0, t0 * 1.01, t0 / 1.01)):
                k1.add("g%d_%d" % (i, q), "order %d %r" % (n, t))
                k1.add("g%d_%da" % (i, q), "att %d %r" % (n, t))
        base = {}
        for bits in (8, 12, 16, 20, 24):
            for stage in (2, 4, 8):
                rate = 44100.0 * stage / 2
                tbw = (rate / 2 - 18000) / rate
                base[bits, stage] = tbw
                k1.add("t%d_%dn" % (bits, stage), "nbr %d %r" % (bits * 6, tbw))
                k1.add("t%d_%d" % (bits, stage), "coefs %d %r" % (bits * 6, tbw))
        r1 = k1.run()
        crashed = [d for d in r1.values() if "crash" in d]
        # ---- pass 2
        k2 = Calls(c, exe, v + "2")
        for i in specs:
            d = r1[i]
            if "crash" in d or not 1 <= d["n"] <= 256:
                continue
            k2.add(i + "o", "order %d %r" % (d["n"], specs[i][1]))
            k2.add(i + "a", "att %d %r" % (d["n"], specs[i][1]))
            if d["n"] > 1:
                k2.add(i + "b", "att %d %r" % (d["n"] - 1, specs[i][1]))
        want = {}
        for i, (n, tlb, tub, t0, f) in gls.items():
            ds = [r1["%s_%d" % (i, q)] for q in range(5)]
            at = [r1["%s_%da" % (i, q)] for q in range(5)]
            if any("crash" in d or d.get("att", 0) > 1e200 for d in ds + at):
                continue
            g = [gdelay(d["c"], f) for d in ds]
            lo, hi = min(g[0], g[1]), max(g[0], g[1])
            prec = rng.choice((1e-2, 1e-3, 1e-5, 1e-6))
            if rng.random() < 0.35:          # close to or beyond what double precision can reach: it need not succeed, but has to tell
                prec = rng.choice((1e-9, 1e-12, 1e-13, 1e-15, 1e-17, 1e-300))
            # where the target lies relative to the delays of the limits
            cls = rng.choice(("in", "in", "in", "in", "out", "end"))
            if cls == "in":
                gd = g[2]
                where = "inside" if lo + 1e-5 < gd < hi - 1e-5 else "edge"
            elif cls == "out":
                gd = rng.choice((lo * 0.97, hi * 1.03, hi + 1, lo / 2))
                where = "outside" if gd < lo - 1e-5 or gd > hi + 1e-5 else "edge"
            else:
                gd, where = rng.choice((lo, hi)), "edge"
            # attenuation of every design whose delay is within prec
            sure = min(abs(g[3] - g[2]), abs(g[4] - g[2])) > 1.5 * prec
            amin, amax = min(a["att"] for a in at[2:]), max(a["att"] for a in at[2:])
            alb, aub, limits = 0.001, 1000.0, "met"
            w = rng.randrange(6)
            if w == 1:
                alb, aub = amin * 0.9, amax * 1.1
            elif w == 2:
                alb, limits = amax * 1.05, "violated"
            elif w == 3:
                aub, limits = amin * 0.95, "violated"
            elif w == 4:
                alb, aub, limits = at[2]["att"] * 0.9999, at[2]["att"] * 1.0001, "?"
            if w in (1, 2, 3) and (not sure or cls != "in"):
                limits = "?"
            if prec < 1e-6 and limits == "met":
                limits = "?"
            nulls = 1 if rng.random() < 0.1 else 0
            want[i] = (where, limits)
            k2.add(i, "gdly %d %r %r %r %r %r %r %r %d" % (n, gd, f, prec, alb, aub, tlb, tub, nulls))
        r2 = k2.run()
        k3 = Calls(c, exe, v + "3")
        for i in want:
            d = r2[i]
            if d.get("ret") == 0 and not d["nulls"] and 0 < d["tbw"] < 0.5:
                k3.add(i + "o", "order %d %r" % (d["n"], d["tbw"]))
        r3 = k3.run() if k3.lines else {}
        crashed += [d for d in list(r2.values()) + list(r3.values()) if "crash" in d]
        designed[v] = {k: r1["t%d_%d" % k] for k in base}

        # ---- records
        recs = [{"k": "crash", "call": d} for d in crashed]

        def diff(a, b, scale):
            return c31(max([abs(x - y) for x, y in zip(a, b)] + [0]) * scale) if len(a) == len(b) else CAP
        for i, (att, tbw) in specs.items():
            d, dn, a, o, b = r1[i], r1[i + "n"], r2.get(i + "a", {}), r2.get(i + "o", {}), r2.get(i + "b", {})
            if "crash" in d:
                continue
            recs.append({"k": "spec", "att": mdb_(att), "tbw": c31(tbw * 1e9), "n": d["n"], "n2": dn.get("n", -9), "len": len(d["c"]), "shape": shape(d), "touched": d["touched"],
                         "same": diff(d["c"], o.get("c", []), 1e12), "own": mdb_(a.get("att", -1)), "below": mdb_(b.get("att", 0)) if d["n"] > 1 else 0,
                         "meas": measure(d["c"], tbw, att) if d["c"] else 0})
        for i, (n, tbw) in orders.items():
            d, a, m, w = r1[i], r1[i + "a"], r1[i + "m"], r1[i + "w"]
            if any("crash" in q for q in (d, a, m, w)) or a["att"] > 500:
                continue
            recs.append({"k": "order", "n": n, "tbw": c31(tbw * 1e9), "len": len(d["c"]), "shape": shape(d), "touched": d["touched"], "att": mdb_(a["att"]), "more": mdb_(m["att"]),
                         "wider": mdb_(w["att"]), "meas": measure(d["c"], tbw, a["att"])})
        for i, (cs, f, ph, one) in gds.items():
            d = r1[i]
            if "crash" not in d:
                num = gdelay(cs, f, ph)
                if num < 1000:
                    recs.append({"k": "gd", "c": ["%.6f" % x for x in cs], "f": "%.6f" % f, "ph": ph, "d": c31(d["d"] * 1e6), "num": c31(num * 1e6)})
        # the delay of a designed filter is that of the complete filter in the pass band, for the lower half of it
        for i, (n, tbw) in list(orders.items()):
            d, a = r1[i], r1[i + "a"]
            if "crash" in d or "crash" in a or not 80 <= a["att"] <= 150 or tbw < 0.01:
                continue
            f, h = rng.uniform(0.01, 0.5) * (0.25 - tbw / 2), 1e-5
            H = sum(response(d["c"], [f - h, f + h]))
            whole = -np.angle(H[1] / H[0]) / (4 * np.pi * h)
            recs.append({"k": "gd", "c": ["design %d %r" % (n, tbw)], "f": "%.6f" % f, "ph": 0, "d": c31(whole * 1e6), "num": c31(gdelay(d["c"], f) * 1e6)}
                        if abs(whole - gdelay(d["c"], f)) > 2e-2 else {"k": "gd", "c": ["design"], "f": "%.6f" % f, "ph": 0, "d": 0, "num": 0})
        outcomes = {}
        for i, (where, limits) in want.items():
            d = r2[i]
            if "crash" in d:
                continue
            ok = d["ret"] == 0
            outcomes["%s/%s -> %d" % (where, limits, d["raw"])] = outcomes.get("%s/%s -> %d" % (where, limits, d["raw"]), 0) + 1
            recs.append({"k": "gdly", "n": d["n"], "ret": d["ret"], "touched": d["touched"], "nulls": d["nulls"], "where": where, "limits": limits, "gd": c31(d["gd"] * 1e6), "prec": c31(math.ceil(d["prec"] * 1e6)),
                         "alb": mdb_(d["alb"]), "aub": mdb_(d["aub"]), "tlb": c31(d["tlb"] * 1e9), "tub": c31(d["tub"] * 1e9), "att": mdb_(d["att"]), "tbw": c31(d["tbw"] * 1e9),
                         "shape": shape(d) if ok else 1, "num": c31(gdelay(d["c"], d["f"]) * 1e6) if ok else 0,
                         "over": c31(max(0, abs(d["d"] - d["gd"]) - d["prec"]) / (1e-14 * d["gd"])) if ok else 0,
                         "same": diff(d["c"], r3.get(i + "o", {}).get("c", []), 1e12) if ok and not d["nulls"] else 0,
                         "meas": (measure(d["c"], d["tbw"], d["att"]) if not d["nulls"] else (measure(d["c"], gls[i][2], 100) if r1[i + "_1a"]["att"] <= 150 else CAP)) if ok else 0})
        if v == "std":
            c.cov["gdly_outcomes"] = outcomes
            c.cov["calls"] = len(k1.lines) + len(k2.lines) + len(k3.lines)
        judge(c, recs, v)
        if c.violations:
            return c.finish()
        c.sample([r for r in recs if r["k"] == "gdly"][0])

    # ---- the filters of the resampler
    T = designed["std"]
    if any("crash" in d for d in T.values()):
        raise CheckError("designer crashed")
    gd6 = {k: int(round(float("%.6f" % gdelay(d["c"], 1000 / (44100.0 * k[1]))) * 1e6)) for k, d in T.items()}
    for v, exe in rexes.items():
        cfgs = configs(filters="I", sse=(1, 0) if v == "std" else (0,))
        s = kernel_script(cfgs, rng)
        out = c.path("table.log")

        def table():
            run_script(exe, s, out)
            recs = []
            raw = list(read_cases(out))
            K, bad = read_kernels_from(raw)
            for h, e in bad:
                recs.append({"k": "crash", "case": h["id"]})
            for (m, r, p, sse, f), x in K.items():
                worst, ln = 0.0, 10 ** 9
                for q, (y, d, h) in x["phases"].items():
                    imp = np.zeros(UNITS["I"] * (r if m == "D" else 1))
                    imp[q] = 1
                    if m == "U":
                        for st in (2, 4, 8):
                            if st <= r:
                                imp = up(T[p, st]["c"], imp)
                    else:
                        for st in (8, 4, 2):
                            if st <= r:
                                imp = down(T[p, st]["c"], imp)
                    n = min(len(y), len(imp))
                    ln = min(ln, n)
                    worst = max(worst, float(np.max(np.abs(y[:n] - imp[:n]))) if n and np.all(np.isfinite(y[:n])) else 9.0)
                recs.append({"k": "table", "m": m, "r": r, "p": p, "s": sse, "d": x["d"][0][0], "g2": gd6[p, 2], "g4": gd6[p, 4], "g8": gd6[p, 8], "err": c31(worst * 1e9), "len": ln})
            return recs
        judge(c, table(), "table-" + v, again=table)
        if c.violations:
            return c.finish()

    # ---- the table generator
    mk = os.path.join(REPO, "filter-design", "mkiir.cc")
    if os.path.exists(mk):
        exe = c.path("mkiir")
        b = sh(["g++", "-std=c++11", "-w", "-O1", "-I", os.path.join(REPO, "include"), mk, "-o", exe])
        if b.returncode == 0:
            txt = sh([exe], timeout=60).stdout
            recs = []
            for st, bits, body, g in re.findall(r"coeffs(\d+)_(\d+)\s*=\s*\{([^}]*)\}.*?create_impl_iir_with_coeffs\s*\(\s*\w+\s*,\s*([-\d.e]+)", txt, re.S):
                co = [float(x) for x in re.findall(r"[-+]?\d[\d.]*(?:e[-+]?\d+)?", body)]
                k = (int(bits), int(st))
                if k in T:
                    recs.append({"k": "mk", "stage": k[1], "bits": k[0], "n": len(co), "want": len(T[k]["c"]), "dev": c31(max(abs(a - b) for a, b in zip(co, T[k]["c"])) * 1e12), "gd": c31(float(g) * 1e6), "g": gd6[k]})
            if recs:             # an unknown output format is no statement about the filters
                judge(c, recs, "mkiir")
            c.cov["generator_tables"] = len(recs)
    c.assumptions = ["specifications from 0.01 to 160 dB and transition bands from 0.0001; attenuation of the filter itself is measured for transition bands >= 0.01 up to 150 dB and >= 0.001 up to 60 dB",
                     "attenuation within 0.05 dB, delays within 20 micro samples of the derivative of the phase, impulse responses of the resampler within 4e-6"]
    return c.finish()


def judge(c, recs, name, again=None):
    """records accepted by DesignTrace?"""
    def once(recs):
        parts, files = 3, []
        for q in range(parts):
            mine = recs[q::parts]
            if mine:
                p = c.path("%s.rec.%d" % (name, q))
                open(p, "w").write("".join(json.dumps(r) + "\n" for r in mine))
                files.append((p, mine))
        with ThreadPoolExecutor(parts) as ex:
            for f, t in zip(files, ex.map(lambda f: c.validate(name, "DesignTrace", {"TRACE": f[0]}, len(f[1]), len(f[1]), workers=2), files)):
                if t is not None:
                    m = re.search(r"l = (\d+)", t.error_state())
                    return f[1][int(m.group(1)) - 1]
    r = once(recs)
    if r is not None and again is not None:
        r = once(again())
    if r is not None:
        f = c.path(name + ".rejected.json")
        open(f, "w").write(json.dumps(r) + "\n")
        c.violation("call not accepted by DesignTrace: " + json.dumps(r), [f])
