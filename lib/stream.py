"""Configurations, streams, block plans and trace validation against ResamplerTrace."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *

FIR_ORD = {2: {24: 52, 20: 42, 16: 32, 12: 24, 8: 16, 1: 2},      # used to choose block sizes only
           4: {24: 16, 20: 14, 16: 10, 12: 8, 8: 6, 1: 2},
           8: {24: 12, 20: 10, 16: 8, 12: 6, 8: 4, 1: 2}}


class Cfg:
    def __init__(self, m, r, p, s, f):
        self.m, self.r, self.p, self.s, self.f = m, r, p, s, f

    def d(self):
        return {"m": self.m, "r": self.r, "p": self.p, "s": self.s, "f": self.f}

    def args(self):
        return "%s %d %d %d %s" % (self.m, self.r, self.p, self.s, self.f)

    def __repr__(self):
        return "%s%d%s%d%s" % (self.m, self.r, self.f, self.p, "v" if self.s else "s")

    def key(self):
        return (self.m, self.r, self.p, self.s, self.f)

    def unit(self):               # input samples per base unit
        return self.r if self.m == "D" else 1

    def out(self, n):
        return n * self.r if self.m == "U" else n // self.r


PRECS = {"F": [1, 8, 12, 16, 20, 24], "I": [8, 12, 16, 20, 24]}


def configs(ratios=(2, 4, 8), modes="UD", filters="FI", sse=(1, 0), precs=None):
    return [Cfg(m, r, p, s, f) for m in modes for r in ratios for f in filters for p in PRECS[f] if not precs or p in precs for s in sse]


# ---- block size classes from the implementation-shaped models
_plan = None


UP_MUTANTS = [('SSE /\\ i + 6 < Limit', 'SSE /\\ i + 5 < Limit'), ("hv' = ORDER - 1 + HTodo", "hv' = ORDER + HTodo"), ("THEN HTodo ELSE ho)", "THEN HTodo - 1 ELSE ho)"),
              ('(al + i) % 4 # 0 /\\ i < Limit', '(al + i) % 2 # 0 /\\ i < Limit'), ("IF n < ORDER - 1 THEN n ELSE ORDER - 1", "IF n <= ORDER + 2 THEN n ELSE ORDER - 1")]
DOWN_MUTANTS = [('SSE /\\ i + 6 < Limit', 'SSE /\\ i + 4 < Limit'), ("HTodo == Min2(m, ORDER - 1)", "HTodo == Min2(m, ORDER - 2)"), ("pos' = pos + m", "pos' = pos + bs"), ("HD  == (ORDER \\div 2) - 1", "HD  == ORDER")]


def prove(check):
    """The stage models for all orders and block sizes (see load_plan(refine=True) for the link to the explicit models)."""
    check.inductive("FirUpInd", () if QUICK else UP_MUTANTS)
    check.inductive("FirDownInd", () if QUICK else DOWN_MUTANTS)
    check.inductive("CascadeInd", () if QUICK else [("chunk % 8 = 0\n       /\\ mode", "chunk % 4 = 0\n       /\\ mode"), ("Min2(chunk, n - pos)", "chunk"), ("pos' = pos + len'", "pos' = pos + chunk")])


def load_plan(check, workers=8, deep=False, refine=False):
    """Runs FirUp/FirDown (all orders of the library, every block size and alignment) and collects, per
    stage, one representative (n, alignment) for every path class of the model."""
    global _plan
    plan = {}

    def run(mod):
        text = open(os.path.join(SPEC, mod + ".cfg")).read()
        if deep:
            text = text.replace("NMaxQuick", "NMaxDeep")
        if not refine:
            text = text.replace("PROPERTY Refines\n", "")
        return tlc(mod, cfgtext=text, workers=workers // 2, timeout=800)
    with ThreadPoolExecutor(2) as ex:
        res = list(ex.map(run, ["MCFirUp", "MCFirDown"]))
    for mod, t in zip(["MCFirUp", "MCFirDown"], res):
        if not t.ok:
            raise CheckError("model %s does not hold:\n%s" % (mod, t.out[-3000:]))
        check.add_model(mod, t)
        t.plan = re.findall(r'<<"PLAN", "(\w)", (\d+), (\w+), (\d+), (\d+), (<<[^>]*>>)>>', t.out)
        for m, o, s, n, al, cl in sorted(t.plan, key=lambda x: (int(x[3]), int(x[4]))):
            plan.setdefault((m, int(o), 1 if s == "TRUE" else 0), {}).setdefault(cl, (int(n), int(al)))
    _plan = plan
    return plan


def block_sizes(cfg, plan):
    """Input block sizes (with the input alignment) that reach every path class of every stage."""
    u = cfg.unit()
    res = {}
    if cfg.f == "F":
        for st in (2, 4, 8):
            if st > cfg.r:
                continue
            for cl, (n, al) in plan.get((cfg.m, FIR_ORD[st][cfg.p], cfg.s), {}).items():
                if cfg.m == "U":       # stage st gets n_in * st/2 samples
                    q = -(-n // (st // 2))
                else:                  # stage st delivers n_in * st / r / 2 outputs
                    q = -(-(n * 2 * cfg.r // st) // u) * u
                res.setdefault((q, al), cl)
    for n in (0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64):
        res.setdefault((n * u, n % 4), "extra")
    return sorted(res)


LONG = [1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 4097, 5000]


def partition(rng, cfg, sizes, total, long=()):
    """blocks (n, al) that add up to total input samples"""
    u, left, res = cfg.unit(), total, []
    pool = list(sizes) + [(-(-n // u) * u, rng.randrange(4)) for n in long]
    rng.shuffle(pool)
    while left > 0:
        if not pool:
            pool = list(sizes)
            rng.shuffle(pool)
        n, al = pool.pop()
        n = min(n, left)
        res.append((n, al))
        left -= n
    return res


def p_ops(cfg, o, sid, blocks, off=0, place=None, rng=None, oal=None):
    ops = []
    for n, al in blocks:
        pl = place or "m"
        oa = oal if oal is not None else (rng.randrange(4) if rng else 0)
        if n == 0 and rng and rng.random() < 0.5:
            pl = "z"
        ops.append("p %d %d %d %d %d %d %s" % (o, sid, off, n, al, oa, pl))
        off += n
    return ops


# ---- golden responses
def gold_cases(script, cfgs, sids, lens, feed=None):
    for c in cfgs:
        for sid in sids:
            n = lens[sid] // c.unit() * c.unit()
            step = feed or (n if n <= 1000 else 256)
            step = max(c.unit(), step // c.unit() * c.unit())
            ops = ["new 0 " + c.args()]
            off = 0
            while off < n:
                k = min(step, n - off)
                ops.append("p 0 %d %d %d 0 0 m" % (sid, off, k))
                off += k
            script.case("gold", ops, sid=sid, **c.d())


def local_slack(c, y):
    """Rounding errors of the later stages are relative to what goes on around an output (unit impulses: the first stage is exact)."""
    r = 200 if c["f"] == "I" else {2: 4, 4: 34, 8: 48}[c["r"]] if c["m"] == "U" else 6
    a = [min(abs(v), 1 << 29) for v in y]
    return [4 + max(a[max(0, k - r):k + r + 1]) // (1 << 20) for k in range(len(a))]


def write_gold(inpath, outpath, slack=()):
    bad = []
    with open(outpath, "w") as f:
        for h, evs in read_cases(inpath):
            y = []
            for e in evs:
                if e["e"] == "p":
                    y += e["y"]
                elif e["e"] == "crash":
                    bad.append((h, e))
            g = {"m": h["m"], "r": h["r"], "p": h["p"], "s": h["s"], "f": h["f"], "sid": h["sid"], "y": y, "t": []}
            if h["sid"] in slack:
                g["t"] = local_slack(g, y)
            f.write(json.dumps(g) + "\n")
    return bad


def write_params(path, script, aspects, sseblind=0):
    open(path, "w").write(json.dumps({"aspects": aspects, "sseblind": sseblind, "streams": script.streams or [{"sid": 0, "mod": 1, "win": 1, "fin": 1, "tol": 0, "slack": 0}]}) + "\n")


def split_trace(path, parts):
    """Splits a trace between cases into files of roughly equal size."""
    cases, cur = [], []
    for line in open(path):
        cur.append(line)
        if line.startswith('{"e":"end"}'):
            cases.append(cur)
            cur = []
    if not cases or cur:
        raise CheckError("no complete cases in " + path)
    order = sorted(range(len(cases)), key=lambda k: -sum(map(len, cases[k])))
    bins = [[0, []] for _ in range(max(1, min(parts, len(cases))))]
    for k in order:
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(map(len, cases[k]))
        b[1].append(k)
    res = []
    for q, (_, ks) in enumerate(bins):
        p = "%s.%d" % (path, q)
        with open(p, "w") as f:
            for k in sorted(ks):
                f.writelines(cases[k])
        res.append((p, len(ks), sum(len(cases[k]) for k in ks)))
    return res


def validate_stream(check, name, trace, gold, params, module="ResamplerTrace", parts=4, timeout=700, heap="3g", expect=None):
    """Trace validation; returns a list of rejections [(case header, event number, event, state text)]."""
    files = split_trace(trace, parts)
    if expect is not None and sum(f[1] for f in files) != expect:
        raise CheckError("%d cases in the log, %d in the script" % (sum(f[1] for f in files), expect))

    def one(f):
        p, ncases, nev = f
        return check.validate(name, module, {"TRACE": p, "GOLD": gold, "PARAMS": params}, ncases, nev, workers=2, timeout=timeout, heap=heap)
    rej = []
    with ThreadPoolExecutor(len(files)) as ex:
        for f, t in zip(files, ex.map(one, files)):
            if t is None:
                continue
            st = t.error_state()
            m = re.search(r"^(?:/\\ )?l = (\d+)", st, re.M)
            lines = open(f[0]).read().split("\n")
            l = int(m.group(1)) if m else 1
            q = l - 1
            while q > 0 and not lines[q].startswith('{"e":"case"'):
                q -= 1
            rej.append((json.loads(lines[q]), l - q - 1, lines[l - 1] if l <= len(lines) else "", st, "\n".join(lines[q:l])))
    return rej


def describe(rej):
    h, k, ev, st, ctx = rej
    return "case %s: event %d is not a behaviour of the specification: %s" % (json.dumps({x: y for x, y in h.items() if x != "e"}), k, ev[:300])


def run_stream_check(check, exe, script, gscript, aspects, name="stream", sseblind=0, gexe=None, parts=4, module="ResamplerTrace", env=None, params=None, post=None):
    """Golden run, script run, trace validation, confirmation of a rejection by a second run."""
    tr, gr = check.path(name + ".trace"), check.path(name + ".goldtrace")
    gold, par = check.path(name + ".gold"), check.path(name + ".params")

    def once():
        if gscript is not None:
            run_script(gexe or exe, gscript, gr, env=env)
            bad = write_gold(gr, gold, {x["sid"] for x in script.streams if x["slack"]})
        else:
            bad = []
            open(gold, "w").write(json.dumps({"m": "U", "r": 2, "p": 8, "s": 0, "f": "F", "sid": 0, "y": []}) + "\n")
        if bad:
            return [(bad[0][0], 0, json.dumps(bad[0][1]), "", "fresh object crashed")]
        run_script(exe, script, tr, env=env)
        if post:
            post(tr)
        (params or (lambda p: write_params(p, script, aspects, sseblind)))(par)
        return validate_stream(check, name, tr, gold, par, parts=parts, module=module, expect=sum(x.startswith("case ") for x in script.lines))
    rej = once()
    if rej:
        again = once()
        if not again:
            print("note: a rejection was not reproduced and is ignored: " + describe(rej[0]))
            return False
        r = again[0]
        ctx = check.path(name + ".rejected.ndjson")
        open(ctx, "w").write(r[4] + "\n")
        cs = check.path(name + ".rejected.case")
        ops = script.cases.get(r[0].get("id"), [])
        open(cs, "w").write("\n".join([x for x in script.lines if x.startswith("stream")] + ["case " + json.dumps({k: v for k, v in r[0].items() if k != "e"})[1:-1]] + ops + ["end"]) + "\n")
        check.violation(describe(r) + "\n\nstate before the rejected event:\n" + r[3] + "\n\nreplay: /verif/build/rsh-* rejected.case out.ndjson; validate with spec/%s.tla" % module, [ctx, cs, par])
        return True
    return False


# ---- histories generated by TLC from the specification
def histories(check, num, depth, nobj, nslot, ncls, kinds, seed=None, init=0):
    p = check.path("gen.json")
    open(p, "w").write(json.dumps({"nobj": nobj, "nslot": nslot, "ncls": ncls, "depth": depth, "kinds": kinds, "init": init}) + "\n")
    t = tlc("Gen", env={"GEN": p}, workers=1, sim=(num, 2 * depth + 4, seed if seed is not None else SEED * 1000 + 17))
    res = [json.loads(json.loads('"%s"' % x)) for x in re.findall(r'^"GEN (.*)"$', t.out, re.M)]
    if t.rc != 0 or len(res) != num:
        raise CheckError("generator failed (%d of %d):\n%s" % (len(res), num, t.out[-2000:]))
    m = re.search(r"The number of states generated: (\d+)", t.out)
    check.cov["models"].append({"model": "Gen (simulation)", "behaviours": num, "states": int(m.group(1)) if m else 0})
    check.cov["states"] += int(m.group(1)) if m else 0
    check.cov["generated_histories"] = check.cov.get("generated_histories", 0) + num
    return res


class Sids:
    """Stream numbers: many numbers may carry the same content; a number is tied to one partition."""

    def __init__(self, scripts, first=1):
        self.next, self.scripts, self.len = first, scripts, {}

    def add(self, kind, length, **kw):
        s = self.next
        self.next += 1
        for sc in self.scripts:
            sc.stream(s, kind, **kw)
        self.len[s] = length
        return s

    def lcg(self, seed, n, levels=4, **kw):
        return self.add("lcg %d %d %d" % (seed & 0x7fffffff, n, levels), n, **kw)


def poison(rng, n):
    """Bit patterns of a stream with NaN, infinities, huge and denormal values."""
    special = [0x7fc00000, 0x7f800000, -8388608, 0x7f7fffff, -8388609, 1, -2147483647, 0x7f800001, 0x00800000, 0x3f800000]
    return "b %d %s" % (n, " ".join(str(rng.choice(special)) if rng.random() < 0.3 else str(rng.choice([0x3f000000, 0x40400000, -1077936128])) for _ in range(n)))


def twin_gold(g, cfg, sid, blocks):
    """Golden response of a fresh object that gets stream sid in exactly these blocks."""
    g.case("gold", ["new 0 " + cfg.args()] + p_ops(cfg, 0, sid, blocks), sid=sid, **cfg.d())


def concretize(h, slots, sizes, ids, rng, g, maxlen=None, levels=4, tol=400, final_del=True, al=True, poison_sid=None):
    """Turns an abstract history into harness operations.  Every stretch between construction/reset and the next
    reset gets its own stream number and a golden twin: a fresh object fed with the same blocks.
    slots: list of Cfg; sizes: Cfg key -> list of (n, alignment)"""
    ops, st = [], {}          # object -> [cfg, sid, off, blocks]
    cap = maxlen or 1500

    def close(o):
        x = st.get(o)
        if x and x[1] is not None and g is not None and x[1] not in (poison_sid or {}).values():
            twin_gold(g, x[0], x[1], x[3])

    for q in h:
        k = q[0]
        if k == "new":
            cf = slots[q[2] % len(slots)]
            ops.append("new %d %s" % (q[1], cf.args()))
            st[q[1]] = [cf, None, 0, []]
        elif k == "p":
            x = st[q[1]]
            cf, u = x[0], x[0].unit()
            if x[1] is None or (q[2] == 1 and poison_sid and x[1] in poison_sid.values()):
                if q[2] == 2:
                    x[1:] = [poison_sid[u], 0, []]
                else:
                    x[1:] = [ids.lcg(rng.getrandbits(30), cap * u, levels, tol=tol), 0, []]
            sz = sizes[cf.key()]
            n, a = sz[(q[3] * 7919 + len(ops)) % len(sz)]
            n = max(0, min(n, ids.len[x[1]] - x[2]) // u * u)
            if not al:
                a = 0
            pl = "z" if n == 0 and rng.random() < 0.5 else "m"
            ops.append("p %d %d %d %d %d %d %s" % (q[1], x[1], x[2], n, a, rng.randrange(4) if al else 0, pl))
            x[2] += n
            x[3] = x[3] + [(n, a)]
        elif k == "r":
            close(q[1])
            ops.append("r %d" % q[1])
            st[q[1]][1:] = [None, 0, []]
        elif k == "q":
            ops.append("q %d" % q[1])
        elif k in ("mv", "ma"):
            if k == "ma":
                close(q[2])
            ops.append("%s %d %d" % (k, q[1], q[2]))
            st[q[2]] = st[q[1]]
            st[q[1]] = None
        elif k == "del":
            close(q[1])
            ops.append("del %d" % q[1])
            st.pop(q[1], None)
    for o in list(st):
        close(o)
        if final_del:
            ops.append("del %d" % o)
    return ops


# ---- long runs
def soak_case(g, s, ids, cf, name, blk, total, rng, seg=97, mod=16, win=8, tol=400, place=None):
    """A periodic stream: lead, first repetition, then `total` samples in blocks of blk (harness loop), then on as usual."""
    u = cf.unit()
    lead, n = 5 * u, seg * u
    m = -(-(2000 if cf.f == "I" else 80) // seg)         # repetitions until the lead is forgotten
    sid = ids.add("per %d %d %d %d 4" % (rng.getrandbits(30), lead, n, m + 2), lead + (m + 2) * n, mod=mod, win=win, tol=tol)
    for sc in (g, s):
        if sc is not None:
            sc.streams[-1]["per"] = {"off": lead, "n": n}
    ops, off = ["new 0 " + cf.args()], 0
    while off < lead + m * n:
        k = min(lead + m * n - off, 512 * u)
        ops.append("p 0 %d %d %d 0 0 m" % (sid, off, k))
        off += k
    ops.append("soak 0 %d %d %d %d %d" % (sid, lead, n, blk * u, total * u))
    ops += ["p 0 %d %d %d 1 0 m" % (sid, lead + m * n, n), "p 0 %d %d %d 0 1 m" % (sid, lead + (m + 1) * n, n)]
    s.case(name, ops, **cf.d())
    if g is not None:
        gold_cases(g, [cf], [sid], ids.len)
    return sid


def giant_case(g, s, ids, cf, name, n, rng, gold=True, more=(), gcfg=None, **info):
    """One block of n samples (rounded to the unit), of a stream that repeats itself every 1024 samples."""
    u = cf.unit()
    reps = (2000 * u if cf.f == "I" else 100 * u) // 1024 + 3
    key = (u, cf.f)
    made = ids.__dict__.setdefault("giants", {})
    if key not in made:
        made[key] = ids.add("per %d 0 1024 %d 4" % (rng.getrandbits(30), reps), reps * 1024, fmt="q" if gold else "n", fin=1 if gold else 0)
    sd = made[key]
    if gold:
        gold_cases(g, [gcfg or cf], [sd], ids.len, feed=1024)
    s.case(name, ["new 0 " + cf.args(), "giant 0 %d %d 1024 64" % (sd, n // u * u)] + list(more), **dict(cf.d(), **info))
    return sd


def sweep_case(g, s, ids, cf, name, sweeps, rng, total, tol=400, feed=256, junk=None, length=None, fmt="q", gcfg=None):
    """Condensed families of partitions (harness operation sweep): sweeps is a list of (mode, from, to, step)."""
    u = cf.unit()
    sid = ids.lcg(rng.getrandbits(30), (length or total) * u, 4, mod=512, win=16, tol=tol, fmt=fmt)
    ops = ["new 0 " + cf.args()]
    ids.len[sid] = total * u
    for m, a, b, st in sweeps:
        ops.append("sweep 0 %d %d %s %d %d %d %d%s" % (sid, total * u, m, a, b, st, rng.getrandbits(30), " %d" % junk if m == "r" else ""))
    s.case(name, ops, **cf.d())
    if g is not None:
        gold_cases(g, [gcfg or cf], [sid], ids.len, feed=feed * u)
    return sid
