"""C09: fading memory."""
import struct
from stream import *


def f32bits(x):
    return struct.unpack("<i", struct.pack("<f", x))[0]


def fade_part(c, exe):
    """sound, then silence: outputs exactly zero (FIR) or below the audible threshold (IIR)"""
    rng = c.rng
    s = Script(limit=100)
    ids = Sids((s,))
    cfgs = configs() + configs(ratios=(1,), sse=(1,), precs=[8])
    silence, logged = [], []
    sil, tail = {}, {}
    for u in (1, 2, 4, 8):
        sil[u] = ids.add("lcg 0 %d 0" % (2400 * u), 2400 * u, fmt="n")
        tail[u] = ids.add("lcg 0 %d 0" % (400 * u), 400 * u, fmt="b")
        silence += [sil[u], tail[u]]
        logged.append(tail[u])
    nlong = 100000 if QUICK else 2000000
    sounds = {}
    for u in (1, 2, 4, 8):
        sq = " ".join(["1", "-1"] * (1000 * u))
        burst = " ".join(rng.choice(["1e30", "-1e30", "1e-30", "0", "3e29"]) for _ in range(300 * u))
        sounds[u] = [
            (ids.add("noise0 %d %d 0" % (rng.getrandbits(30), nlong), nlong // u * u, fmt="n"), 1.0, "noise"),
            (ids.add("i 1 %d %s" % (2000 * u, sq), 2000 * u, fmt="n"), 1.0, "nyquist"),
            (ids.add("i 1 %d %s" % (2000 * u, " ".join(["1"] * 2000 * u)), 2000 * u, fmt="n"), 1.0, "dc"),
            (ids.add("i 1 %d %s" % (300 * u, burst), 300 * u, fmt="n"), 1e30, "huge"),
            (ids.add("i 1e-39 %d %s" % (300 * u, " ".join(str(rng.randrange(-9, 10)) for _ in range(300 * u))), 300 * u, fmt="n"), 1e-38, "denormal"),
        ]

    def feed(cf, sid, total, big):
        ops, off = [], 0
        while off < total:
            n = min(total - off, rng.choice(big) * cf.unit())
            ops.append("p 0 %d %d %d %d %d m" % (sid, off, n, rng.randrange(4), rng.randrange(4)))
            off += n
        return ops
    for cf in cfgs:
        u = cf.unit()
        for sid, mx, name in sounds[u]:
            ops = ["new 0 " + cf.args()]
            for rep in range(1 if name == "noise" else 2):
                ops += feed(cf, sid, ids.len[sid], (4096, 1024, 500, 777) if name == "noise" else (1, 7, 64, 300))
                if cf.f == "I":
                    ops += feed(cf, sil[u], 2000 * u, (700, 512, 33))
                ops += feed(cf, tail[u], 400 * u if cf.f == "F" else 40 * u, (1, 2, 5, 16, 33, 100))
            s.case("fade-%r-%s" % (cf, name), ops, thr=f32bits(max(1e-9 * mx, 1e-30)), **cf.d())
        ops = feed(cf, sil[u], 2000 * u, (700, 512, 33)) if cf.f == "I" else []
        ops += feed(cf, tail[u], 400 * u if cf.f == "F" else 40 * u, (1, 2, 5, 16, 33, 100))
        giant_case(None, s, ids, cf, "fade-%r-giant" % cf, ((1 << 22) if QUICK else (1 << 28)) + rng.randrange(1 << 16), rng, gold=False, more=ops, thr=f32bits(4e-9))

    def params(path):
        open(path, "w").write(json.dumps({"silence": silence, "logged": logged}) + "\n")
    run_stream_check(c, exe, s, None, aspects=[], name="fade", module="FadeTrace", params=params)


def switch_part(c, exe, plan, hs):
    """junk (FIR: NaN, infinities), then a new stream without reset: from the forgetting length on equal to a fresh twin"""
    rng = c.rng
    g, s = Script(), Script()
    ids = Sids((g, s))
    k = 0
    per = 4 if QUICK else 20
    for cf in configs():
        u = cf.unit()
        sizes = block_sizes(cf, plan)
        fir = cf.f == "F"
        junk = {1: ids.lcg(rng.getrandbits(30), 2500 * u, 4, fin=0)}
        junk[2] = ids.add(poison(rng, 400 * u), 400 * u, fin=0) if fir else junk[1]
        for q in range(per if fir else 2):
            h = hs[k]
            k += 1
            ops, off, sid = ["new 0 " + cf.args()], 0, None
            for st in h[1:]:
                if st[0] == "p":
                    if st[2] != sid:
                        sid, off = st[2], 0
                    n, al = sizes[(st[3] * 7919 + len(ops)) % len(sizes)]
                    n = min(n, ids.len[junk[sid]] - off) // u * u
                    ops += p_ops(cf, 0, junk[sid], [(n, al)], off, rng=rng)
                    off += n
            ops += p_ops(cf, 0, junk[2], [(16 * u, 0), (u, 1)], off if sid == 2 else 0)
            if fir:
                total = 300 * u
                sd = ids.lcg(rng.getrandbits(30), total, 4)
                blocks = partition(rng, cf, sizes, total)
            else:
                total = 2200 * u
                x = ["0"] * (2000 * u) + [str(rng.randrange(-4, 5)) for _ in range(200 * u)]
                sd = ids.add("i 1 %d %s" % (total, " ".join(x)), total, mod=32, win=8)
                blocks = partition(rng, cf, sizes, total, (300, 1024, 500))
            ops += p_ops(cf, 0, sd, blocks)
            twin_gold(g, cf, sd, blocks)
            s.case("switch-%r-%d" % (cf, q), ops, **cf.d())
    c.sample({"case": list(s.cases)[1], "ops": s.cases[list(s.cases)[1]][:14]})
    run_stream_check(c, exe, s, g, aspects=["out"], name="switch")


def main():
    c = Check("C09")
    per = 4 if QUICK else 20
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, "std")
        fp = ex.submit(load_plan, c, 4)
        fh = ex.submit(histories, c, per * 72 + 120, 10, 1, 1, 12, ["p", "p", "p", "poison", "switch"], init=1)
        fm = ex.submit(lambda: [c.model("IirFade %d/%d" % q, "IirFade", cfgtext=open(os.path.join(SPEC, "IirFade.cfg")).read().replace("Num = 3", "Num = %d" % q[0]).replace("Den = 4", "Den = %d" % q[1]), workers=2) for q in ((3, 4), (1, 8), (1, 2))])
        exe, plan, hs = fb.result(), fp.result(), fh.result()
        fm.result()
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(fade_part, c, exe), ex.submit(switch_part, c, exe, plan, hs)
        a.result(), b.result()
    c.assumptions = ["FIR: NaN, infinite and huge inputs before the switch; IIR: finite inputs only", "IIR memory: 2000 base-rate samples, 1e-9 of the largest input"]
    return c.finish()
