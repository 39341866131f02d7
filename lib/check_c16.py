"""C16: hiir half-band filters compute the polyphase all-pass structure exactly."""
from check_c14 import fix_partial
from stream import *

NCS = list(range(1, 14)) + [16, 17]


def isfloat(v, bits=24):
    """v: integer in units of 2^-S; representable with bits mantissa bits"""
    v = abs(v)
    while v and v % 2 == 0:
        v //= 2
    return v < 1 << bits


class Exact:
    """Looks ahead: can the next samples be processed without any rounding?  Used to choose inputs only."""

    def __init__(self, c, B, wide=False):
        self.c, self.B, self.x, self.y = list(c), B, [0] * len(c), [0] * len(c)
        self.wide, self.bits = wide, 28 if wide else 24     # wide: more bits than a float has, for the instances with double

    def run(self, i, v):
        while i < len(self.c):
            d = v - self.y[i]
            p = d * self.c[i]
            if p % (1 << self.B):
                return None
            w = (p >> self.B) + self.x[i]
            if not all(isfloat(q, self.bits) and abs(q) < 1 << self.bits for q in (d, p >> self.B, w)) or abs(p) >= 1 << 30:
                return None
            self.x[i], self.y[i], v, i = v, w, w, i + 2
        return v

    def step(self, a, b):
        s = self.x[:], self.y[:]
        p, q = self.run(0, a), self.run(1, b)
        if p is None or q is None or not isfloat(p + q, self.bits) or not isfloat(p - q, self.bits) or (p + q) % 2 or abs(p) + abs(q) >= 1 << self.bits:
            self.x, self.y = s
            return False
        return True

    def clone(self):
        e = Exact(self.c, self.B, self.wide)
        e.x, e.y = self.x[:], self.y[:]
        return e


def pick_coefs(rng, nc, mode):
    """(B, coefficients)"""
    if mode == "fixed":
        c = sorted(rng.randrange(200, 32600) for _ in range(nc))
        if rng.random() < 0.3:
            rng.shuffle(c)
        return 15, c
    if mode == "delay":
        return 0, [rng.choice((0, 0, 1, -1)) for _ in range(nc)]
    if mode == "half":
        return 1, [rng.choice((1, 1, 1, 0, 2, -1, 3)) for _ in range(nc)]
    if mode == "quarter":
        return 2, [rng.choice((1, 2, 3, 3, 0)) for _ in range(nc)]
    return 3, [rng.choice((0, 1, 3, 5, 7, 4, 6)) if rng.random() < 0.5 else rng.choice((0, 8)) for _ in range(nc)]


BLOCK = [1, 2, 3, 4, 5, 7, 8, 16]


def place(rng, U, n, split, plan, w):
    """element offsets of the other block(s) relative to the base block"""
    if w >= 6 and (("U" if U else "D"), n, split) in plan:         # one of the placements of the model
        return rng.choice(plan[("U" if U else "D"), n, split])
    if U:
        return rng.choice((2 * n, 2 * n + 1, 2 * n + 3, -n, -n - 2, n, n + 1)), 0
    while True:
        lo = rng.choice((0, 0, -1, -2, -3, -n, -n - 1, 2 * n, 2 * n + 1, 3 * n + 2))
        hi = rng.choice((0, 0, -1, -n, -n - 1, -2 * n, 2 * n, 2 * n + 3, 3 * n, 4 * n)) if split else 0
        if not split or lo + n <= hi or hi + n <= lo:
            return lo, hi


def main():
    c = Check("C16")
    rng = c.rng
    num = 700 if QUICK else 6000
    gen = c.path("gen.json")
    open(gen, "w").write(json.dumps({"depth": 14, "kinds": ["sample", "sample", "block", "block", "block", "ssplit", "split", "split", "split", "clear", "copy", "coefs"]}) + "\n")
    cfg = open(os.path.join(SPEC, "IirStage.cfg")).read()
    variants = ["std", "clang", "asan"] + ([] if QUICK else ["o0", "nosse", "v3"])

    def models():
        if QUICK:
            c.model("IirStage: scalar and vector layout refine the reference, integers mod 3, NC 1..4", "IirStage", cfgtext=cfg, workers=2)
            c.model("IirStage: with new coefficients, mod 3, NC 1..2", "IirStage", cfgtext=cfg.replace("{1, 2, 3, 4}", "{1, 2}").replace("FALSE", "TRUE", 1), workers=2)
        else:
            c.model("IirStage: scalar and vector layout refine the reference, integers mod 3, NC 1..6", "IirStage", cfgtext=cfg.replace("{1, 2, 3, 4}", "1..6"), workers=4, timeout=800)
            c.model("IirStage: with new coefficients, mod 3, NC 1..3", "IirStage", cfgtext=cfg.replace("{1, 2, 3, 4}", "1..3").replace("FALSE", "TRUE", 1), workers=4, timeout=800)
            c.model("IirStage: mod 7, NC 1..2", "IirStage", cfgtext=cfg.replace("{1, 2, 3, 4}", "1..2").replace("P = 3", "P = 7"), workers=4, timeout=800)
        return c.model("InPlace: permitted overlaps are safe", "InPlace", cfgtext=open(os.path.join(SPEC, "InPlace.cfg")).read().replace("NMax = 4", "NMax = %d" % (5 if QUICK else 8)), workers=2)
    few = lambda v: ("-DFEW_ORDERS",) if v in ("asan", "clang") and QUICK else ()
    with ThreadPoolExecutor(8) as ex:
        fb = {v: ex.submit(build, v, "hiir.cc", few(v)) for v in variants}
        fm = ex.submit(models)
        fg = ex.submit(tlc, "HiirGen", env={"GEN": gen}, workers=1, sim=(num, 60, SEED * 1000 + 9))
        exes, t, tm = {v: f.result() for v, f in fb.items()}, fg.result(), fm.result()
    plan = {}
    for d, n, lo, hi in re.findall(r'<<"PLACE", "(\w)", (\d+), (-?\d+), (-?\d+)>>', tm.out):
        sp = hi != "1000"
        plan.setdefault((d, int(n), sp), []).append((int(lo), int(hi) if sp else 0))
    c.cov["overlap_placements"] = sum(map(len, plan.values()))
    hs = [json.loads(json.loads('"%s"' % x)) for x in re.findall(r'^"GEN (.*)"$', t.out, re.M)]
    if t.rc != 0 or len(hs) != num or not plan:
        raise CheckError("generator failed:\n" + t.out[-2000:])
    c.cov["generated_histories"] = num
    for v, exe in exes.items():
        s = Script()
        impls = "fd" if v == "nosse" else "fsd"
        mine = hs if v == "std" else hs[::3]
        for k, h in enumerate(mine):
            # every combination of implementation, direction, number of coefficients comes up
            impl, d = impls[k % len(impls)], "UD"[(k // len(impls)) % 2]
            ncs = NCS[:5] if few(v) else NCS
            nc = ncs[(k // (2 * len(impls))) % len(ncs)]
            mode = ("half", "delay", "fixed", "quarter", "mixed")[(k // 7) % 5]
            S = 20 if mode == "fixed" else 21
            B, co = pick_coefs(rng, nc, mode)
            tol = 0
            if mode == "fixed":
                # error of one rounding, as amplified by the sections that follow
                tol = 64
                for q in (0, 1):
                    g = 1.0
                    for x in co[q::2]:
                        g = g + 2 / (1 - x / 32768.0)
                    tol = max(tol, int(8 * g * (2 if impl == "s" or impl == "f" else 1)))
                if tol > 4096:
                    B, co = 15, [x * 7 // 10 for x in co]
                    tol = 4096
            ops = ["scale %d %d %d" % (S, B, tol)] + ["new %d %s %s %d %s" % (o, impl, d, nc, " ".join(map(str, co))) for o in (0, 1)]
            wide = impl == "d" and k % 3 != 0
            ref = [Exact(co, B, wide), Exact(co, B, wide)]
            for st in h:
                o, kind = st[1], st[0]
                if kind == "clear":
                    ops.append("clear %d" % o)
                    ref[o] = Exact(ref[o].c, B, wide)
                elif kind == "copy":
                    ops.append("copy %d %d %d" % (o, st[2], st[3]))
                    ref[st[2]] = ref[o].clone()
                elif kind == "coefs":
                    if mode == "fixed":
                        continue
                    # coefficients are set before any processing
                    ops.append("clear %d" % o)
                    ref[o] = Exact(ref[o].c, B, wide)
                    _, co2 = pick_coefs(rng, nc, mode)
                    ref[o].c = co2
                    ops.append("coefs %d %d %s" % (o, nc, " ".join(map(str, co2))))
                else:
                    if d == "U" and "split" in kind:
                        kind = kind.replace("ssplit", "sample").replace("split", "block")
                    n = BLOCK[st[2] - 1] if len(st) > 2 else rng.randrange(1, 4)
                    per = 1 if d == "U" else 2
                    if mode == "fixed":
                        n *= rng.choice((1, 1, 4))
                        x = [rng.randrange(-1 << 20, 1 << 20) for _ in range(n * per)]
                    else:
                        x = []
                        for q in range(n):
                            for attempt in range(4):
                                e = [rng.choice((0, 1, -1, 2, 3, -2, 4, -5)) << (18 if attempt < 2 else 19) if rng.random() < 0.7 else 0 for _ in range(per)]
                                if wide and attempt < 3:
                                    e = [z and z // 4 + (rng.randrange(-700, 700) << 14) for z in e]
                                if ref[o].step(e[0] if per == 1 else e[1], e[0]):
                                    x += e
                                    break
                            else:
                                break
                        n = len(x) // per
                        if n == 0:         # would round: start again
                            ops.append("clear %d" % o)
                            ref[o] = Exact(ref[o].c, B, wide)
                            continue
                    lo, hi = place(rng, d == "U", n, "split" in kind, plan, st[3] if len(st) > 3 else 0)
                    ops.append("%s %d %s %d %d %d %d %d %s" % (kind, o, d, n, lo, hi, rng.randrange(4), len(x), " ".join(map(str, x))))
            s.case("%s-h%d" % (v, k), ops, impl=impl, d=d, nc=nc, S=S, B=B, tol=tol, mode=mode)
        # every placement of the model, small blocks
        for (d, n, sp), pl in sorted(plan.items()):
            for q, (lo, hi) in enumerate(pl):
                for impl in impls if v == "std" else impls[q % len(impls)]:
                    nc = 1 + q % 5
                    ops = ["scale 16 1 0", "new 0 %s %s %d %s" % (impl, d, nc, " ".join("1" for _ in range(nc)))]
                    per = 1 if d == "U" else 2
                    for kind in (("split", "ssplit") if sp else ("block", "sample")):
                        ref, x = Exact([1] * nc, 1), []
                        for z in range(n):
                            e = [rng.choice((1, -1, 3, 2)) << 14 for _ in range(per)]
                            if not ref.step(e[0] if per == 1 else e[1], e[0]):
                                raise CheckError("placement case is not exact")
                            x += e
                        ops += ["%s 0 %s %d %d %d %d %d %s" % (kind, d, n, lo, hi, rng.randrange(4), len(x), " ".join(map(str, x))), "clear 0"]
                    s.case("%s-place-%s%d-%d-%d-%s" % (v, d, n, lo, hi, impl), ops, impl=impl, d=d, nc=nc, S=16, B=1, tol=0, mode="place")
        # coefficients with as many bits as the data type has, one at a time
        for impl in impls:
            for d in "UD":
                for nc in (NCS[:5] if few(v) else NCS):
                    bits = 26 if impl == "d" else 24
                    ops = ["scale %d %d 0" % (bits, bits)]
                    for i in range(nc):
                        co = [1 << bits] * nc
                        co[i] = (1 << (bits - 1)) + 2 * rng.randrange(1 << (bits - 2)) + 1
                        x = str(2 << bits) if d == "U" else ("0 %d" if i % 2 == 0 else "%d 0") % (2 << bits)
                        for kind in ("block", "sample"):
                            ops += ["new 0 %s %s %d %s" % (impl, d, nc, " ".join(map(str, co))), "%s 0 %s 1 %d 0 0 %d %s" % (kind, d, 4, 1 if d == "U" else 2, x)]
                    s.case("%s-bits-%s%s%d" % (v, impl, d, nc), ops, impl=impl, d=d, nc=nc, S=bits, B=bits, tol=0, mode="bits")
        # long calls (memory of the filters: coefficients below 0.6)
        for impl in impls:
            for d in "UD":
                for kind in ("sample", "block") + (("split", "ssplit") if d == "D" else ()):
                    for q, nc in enumerate(rng.sample(NCS[:5] if few(v) else NCS, 3 if QUICK else 8)):
                        co = [rng.randrange(200, 19000) for _ in range(nc)]
                        sizes = [rng.choice((255, 257, 511, 1023)), rng.randrange(1024, 5000), 65536 + rng.randrange(-9, 9000)]
                        if v == "std":
                            sizes.append((1 << (24 if q == 0 and nc < 9 else 20)) + rng.randrange(999))
                        ops = ["scale 20 15 900", "new 0 %s %s %d %s" % (impl, d, nc, " ".join(map(str, co)))]
                        for n in sizes:
                            ops += ["big 0 %s %s %d %d %d" % (d, kind, n, rng.getrandbits(30), rng.randrange(4))] + (["clear 0"] if rng.random() < 0.3 else [])
                        s.case("%s-long-%s%s%d-%s" % (v, impl, d, nc, kind), ops, impl=impl, d=d, nc=nc, S=20, B=15, tol=900, mode="long", dev=400)
        if v == "std":
            c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:8]})
            seen = {}
            for i, ops in s.cases.items():
                seen[i.split("-")[1][0]] = seen.get(i.split("-")[1][0], 0) + len(ops)
            c.cov["operations"] = seen
        run_stream_check(c, exe, s, None, aspects=[], name=v, module="HiirTrace", parts=4, post=fix_partial, params=lambda p: open(p, "w").write("{}\n"))
        if c.violations:
            break
    c.assumptions = ["exact cases: coefficients and inputs are dyadic rationals, chosen so that no operation of the reference rounds; results have to be equal",
                     "other cases: coefficients in (0,1) on a grid of 2^-15, 20 bit fixed point, tolerance between 6e-5 and 4e-3 depending on the poles"]
    return c.finish()
