"""Measuring instrument: impulse responses of the real code and numbers derived from them.  It judges nothing."""
import numpy as np
from stream import *   # noqa

UNITS = {"F": 160, "I": 1400}


def f32(bits):
    return np.array(bits, dtype=np.int64).astype(np.int32).view(np.float32).astype(np.float64)


def kernel_script(cfgs, rng=None, after_reset=False):
    s = Script(limit=60)
    mx = 8 * (max(UNITS.values()) + 16)
    for q in range(8):
        s.stream(q, "imp %d %d" % (q, mx), fmt="b")
    for cf in cfgs:
        u = cf.unit()
        n = UNITS[cf.f] * u
        for q in range(u):
            ops = ["new 0 " + cf.args(), "q 0"]
            off = 0
            while off < n:
                k = min(n - off, (rng.choice((1, 3, 16, 64, 100, 512)) if rng else 256) * u)
                ops.append("p 0 %d %d %d 0 0 m" % (q, off, k))
                off += k
            ops.append("q 0")
            s.case("imp-%r-%d" % (cf, q), ops, ph=q, **cf.d())
    return s


def read_kernels(path):
    return read_kernels_from(read_cases(path))


def read_kernels_from(cases):
    """cfg key -> {"h": kernel on the high-rate grid, "off": index of its first element, "d": delays, "head": ...}"""
    raw, res, bad = {}, {}, []
    for h, evs in cases:
        y, d = [], []
        for e in evs:
            if e["e"] == "p":
                y += e["y"]
            elif e["e"] == "q":
                d.append((e["d"], e["ord"], e["se"]))
            elif e["e"] == "crash":
                bad.append((h, e))
        raw.setdefault((h["m"], h["r"], h["p"], h["s"], h["f"]), {})[h["ph"]] = (f32(y), d, h)
    for k, phs in raw.items():
        m, r = k[0], k[1]
        if m == "U":
            g, off = phs[0][0], 0
        else:
            L = min(len(v[0]) for v in phs.values())
            # output j holds x[q] * g[r*j - q]
            g, off = np.zeros(r * L), -(r - 1)
            for q in range(r):
                g[np.arange(L) * r - q - off] = phs[q][0][:L]
        res[k] = {"g": g, "off": off, "d": phs[0][1], "head": phs[0][2], "phases": phs}
    return res, bad


def spectrum(K, m, r):
    """(max pass band deviation in micro dB, min stop band attenuation in milli dB, DC error in 1e-9)"""
    g = K["g"] / (r if m == "U" else 1)
    fs = 44100.0 * r
    N = 8192 * r * (2 if len(g) <= 8192 * r * 2 else 4)
    H = np.abs(np.fft.rfft(g, N))
    f = np.arange(len(H)) * fs / N
    step = fs / N
    hp = H[f <= 18000 + step]                      # the band edge included
    images = np.zeros(len(H), bool)
    for k in range(1, r // 2 + 1):
        images |= np.abs(f - k * 44100.0) <= 18000 + step
    hs = H[images]
    with np.errstate(divide="ignore"):
        pas = np.max(np.abs(20 * np.log10(np.maximum(hp, 1e-12))))
        att = -20 * np.log10(max(np.max(hs), 1e-12))
    dc = abs(hp[0] - 1)
    if m == "U":     # gain of every output phase
        dcp = max(abs(np.sum(K["g"][q::r]) - 1) for q in range(r))
    else:
        dcp = abs(np.sum(K["g"]) - 1)
    c31 = lambda x: int(min(2e9, round(x)))
    return c31(pas * 1e6), c31(att * 1e3), c31(dc * 1e9), c31(dcp * 1e9)


def moment(K):
    """centre of gravity of the kernel in micro samples at the higher rate = group delay at DC"""
    g = K["g"]
    s = np.sum(g)
    return int(round((np.sum(g * (np.arange(len(g)) + K["off"])) / s) * 1e6)) if abs(s) > 1e-3 else 2147483647


def q26(g):
    return [int(x) for x in np.clip(np.rint(np.where(np.isfinite(g), g, 31.0) * 2.0 ** 26), -2147483646, 2147483646)]


def run_measure_check(check, exe, script, records, name, module="Contract", parts=3):
    """script -> log -> records(log) -> accepted by the contract specification?  A rejection is measured twice."""
    def once():
        out = check.path(name + ".log")
        run_script(exe, script, out)
        recs = records(out)
        par = check.path(name + ".params")
        open(par, "w").write('{"x": 1}\n')
        files = []
        for q in range(parts):
            p = check.path("%s.rec.%d" % (name, q))
            mine = recs[q::parts]
            open(p, "w").write("".join(json.dumps(r) + "\n" for r in mine))
            if mine:
                files.append((p, mine))

        def one(f):
            return check.validate(name, module, {"TRACE": f[0], "PARAMS": par}, len(f[1]), len(f[1]), workers=2, timeout=700)
        rej = []
        with ThreadPoolExecutor(parts) as ex:
            for f, t in zip(files, ex.map(one, files)):
                if t is not None:
                    m = re.search(r"l = (\d+)", t.error_state())
                    rej.append(f[1][int(m.group(1)) - 1])
        return rej, recs
    rej, recs = once()
    if rej:
        rej, _ = once()
        if rej:
            r = rej[0]
            f = check.path(name + ".rejected.json")
            open(f, "w").write(json.dumps(r) + "\n")
            sc = check.path(name + ".rejected.script")
            ids = r.get("case", [])
            open(sc, "w").write("\n".join([x for x in script.lines if x.startswith("stream")] + [y for i in ids for y in ["case " + json.dumps({"id": i})[1:-1]] + script.cases.get(i, []) + ["end"]]) + "\n")
            check.violation("measurement not accepted by %s: %s" % (module, json.dumps({k: v for k, v in r.items() if k not in ("g",)})), [f, sc])
        else:
            print("note: a rejection was not reproduced and is ignored")
    return recs


def fit_tone(y, hz, rate, k0):
    """least squares a*exp(i*(w k)) + cc: returns (complex amplitude, residual max) with phase relative to k = k0"""
    w = 2 * np.pi * hz / rate
    k = np.arange(len(y)) + k0
    A = np.stack([np.cos(w * k), np.sin(w * k)], 1)
    c, *_ = np.linalg.lstsq(A, y, rcond=None)
    return c[1] + 1j * c[0], float(np.max(np.abs(A @ c - y)))       # sin(w k + phase) = Im(amp e^{iwk})


def mdb(x):
    return int(round(20000 * np.log10(max(float(x), 1e-12))))
