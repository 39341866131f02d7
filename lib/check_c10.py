"""C10: instances are independent."""
from stream import *


def schedules(c, nt, stops):
    t = c.model("Instances %d threads, %d stops" % (nt, stops), "Instances",
                cfgtext=open(os.path.join(SPEC, "Instances.cfg")).read().replace("NT = 2", "NT = %d" % nt).replace("Stops = 3", "Stops = %d" % stops), workers=2)
    return [[int(x) for x in m.replace(" ", "").split(",")] for m in re.findall(r'<<"SCHED", <<([^>]*)>>>>', t.out.replace("\n", ""))]


def pages(nbytes):
    return max(1, -(-nbytes // 4096))


def traps(rng, cf, n, stops):
    """pages of the input / output buffer at whose first access the thread stops"""
    pi, po = pages(n * 4), pages(cf.out(n) * 4)
    cand = [("I", k) for k in range(pi)] + [("O", k) for k in range(po)]
    # the first input page stops before anything happened: only useful with the others
    if len(cand) > stops:
        cand = rng.sample(cand[1:] if len(cand) > stops + 1 else cand, stops)
    return cand


def par_cases(c, g, s, ids, scheds, nt, stops, count, small):
    rng = c.rng
    cfgs = configs() + configs(ratios=(1,), precs=[8], filters="F", sse=(1,))
    deep = [x for x in cfgs if x.r > 2]
    for k in range(count):
        sch = scheds[rng.randrange(len(scheds))] if nt > 2 else scheds[k % len(scheds)]
        same = rng.random() < 0.6
        cf0 = deep[k % len(deep)] if k % 3 else cfgs[k % len(cfgs)]
        ops, calls, blocks = [], [], {}
        for t in range(nt):
            cf = cf0 if same or t == 0 else rng.choice(cfgs)
            u = cf.unit()
            # long enough for several pages on either side and for two chunks of the ratio 4 and 8 code
            n1 = rng.choice([2, 16, 40]) * u
            n2 = {"U": {1: 4096, 2: 2500, 4: 1200, 8: 1100}, "D": {2: 4500, 4: 4400, 8: 8700}}[cf.m].get(cf.r, 4096) + rng.randrange(40)
            n2 = n2 // u * u
            n3 = 60 * u
            sd = ids.lcg(rng.getrandbits(30), n1 + n2 + n3, 4, **({"mod": 16, "win": 4} if n2 * cf.r > 6000 or cf.r == 1 else {}))
            ops += ["new %d %s" % (t, cf.args()), "p %d %d 0 %d 0 0 m" % (t, sd, n1)]
            tr = traps(rng, cf, n2, stops)
            calls.append("%d %d %d %d %d %s" % (t, sd, n1, n2, len(tr), " ".join("%s %d" % x for x in tr)))
            blocks[t] = (cf, sd, n1, n2, n3)
        ops.append("par %d %s %d %s" % (nt, " ".join(calls), len(sch), " ".join(map(str, sch))))
        for t, (cf, sd, n1, n2, n3) in blocks.items():
            ops.append("p %d %d %d %d 0 0 m" % (t, sd, n1 + n2, n3))
            twin_gold(g, cf, sd, [(n1, 0), (n2, 0), (n3, 0)])
        s.case("par%d-%d" % (nt, k), ops)


def free_cases(c, g, s, ids, count, total):
    rng = c.rng
    cfgs = configs()
    for k in range(count):
        nt = 6
        same = rng.random() < 0.5
        cf0 = cfgs[(k * 7) % len(cfgs)]
        ops, calls = [], []
        for t in range(nt):
            cf = cf0 if same else rng.choice(cfgs)
            u = cf.unit()
            n = total // cf.r if cf.m == "U" else total
            n = max(u, n // u * u)
            sd = ids.lcg(rng.getrandbits(30), n, 4, mod=128, win=8)
            blk = rng.choice([64, 100, 1024]) * u
            ops.append("new %d %s" % (t, cf.args()))
            calls.append("%d %d %d" % (t, sd, blk))
            twin_gold(g, cf, sd, [(min(blk, n - p), 0) for p in range(0, n, blk)])
        s.case("free-%d" % k, ops + ["free %d %s" % (nt, " ".join(calls))])


def tsan_works(exe, c):
    """ThreadSanitizer needs a compatible address space layout; a trivial script shows whether it runs here."""
    sc = Script()
    sc.stream(1, "lcg 1 64 1")
    sc.case("probe", ["new 0 U 1 8 0 F", "p 0 1 0 8 0 0 m", "del 0"])
    try:
        run_script(exe, sc, c.path("tsanprobe"), timeout=60)
    except CheckError:
        return False
    return '"crash"' not in open(c.path("tsanprobe")).read()


def main():
    c = Check("C10")
    num = 120 if QUICK else 1500
    with ThreadPoolExecutor(6) as ex:
        fm = ex.submit(c.contract, ["shared", "move"], (1, 2))
        fb = ex.submit(build_many, ["std", "tsan"])
        fp = ex.submit(load_plan, c, 4)
        fh = ex.submit(histories, c, num, 40, 4, 4, 12, ["new", "new", "p", "p", "p", "p", "p", "p", "r", "q", "mv", "mv", "ma", "del"])
        f2 = ex.submit(schedules, c, 2, 3)
        f3 = ex.submit(schedules, c, 3, 2)
        fm.result()
        exes, plan, hs, s2, s3 = fb.result(), fp.result(), fh.result(), f2.result(), f3.result()
    rng = c.rng
    cfgs = configs() + configs(ratios=(1,), precs=[8], filters="F", sse=(1,))
    sizes = {cf.key(): block_sizes(cf, plan) for cf in cfgs}
    jobs = []
    # 1. several objects used in turn, moved, assigned, destroyed
    g, s = Script(), Script()
    ids = Sids((g, s))
    for k, h in enumerate(hs):
        base = rng.choice(cfgs)
        alike = [x for x in cfgs if x.m == base.m and x.f == base.f and x.r == base.r]
        slots = [base, base, rng.choice(alike), rng.choice(cfgs)]
        if k % 3 == 1:          # all precisions of one kind side by side
            slots = rng.sample(alike, min(4, len(alike)))
        elif k % 3 == 2:
            slots = [rng.choice([x for x in cfgs if x.m == base.m and x.f == base.f and x.s == base.s]) for _ in range(4)]
        s.case("h%d" % k, concretize(h, slots, sizes, ids, rng, g, maxlen=500, al=False))
    c.sample({"case": "h0", "ops": s.cases["h0"][:20]})
    # the same with all precisions and ratios, most stages with equal numbers of coefficients among them
    for m in "UD":
        for f in "FI":
            for v in (0, 1):
                fam = configs(modes=m, filters=f, sse=(v,))
                for rep in range(2 if QUICK else 8):
                    rng.shuffle(fam)
                    ops = []
                    for i, cf in enumerate(fam):
                        sd = ids.lcg(rng.getrandbits(30), 300 * cf.unit(), 4)
                        o = i % 4
                        if i >= 4:
                            ops.append("del %d" % o)
                        ops += ["new %d %s" % (o, cf.args()), "p %d %d 0 %d 0 0 m" % (o, sd, 300 * cf.unit())]
                        twin_gold(g, cf, sd, [(300 * cf.unit(), 0)])
                    s.case("family%d-%s%s%d" % (rep, m, f, v), ops)
    # many objects at the same time
    for cf in cfgs:
        if QUICK and rng.random() > 0.4:
            continue
        sd = ids.lcg(rng.getrandbits(30), 120 * cf.unit(), 4, mod=4, tol=400)
        s.case("crowd-%r" % cf, ["new 0 " + cf.args(), "crowd 0 %d %d %d" % (sd, 120 * cf.unit(), 300 if QUICK else 5000)])
        twin_gold(g, cf, sd, [(120 * cf.unit(), 0)])
    jobs.append(("hist", exes["std"], g, s))
    # 2. calls preempted inside process_block by calls of other threads
    g, s = Script(), Script()
    ids = Sids((g, s))
    par_cases(c, g, s, ids, s2, 2, 3, 140 if QUICK else 1400, QUICK)
    par_cases(c, g, s, ids, s3, 3, 2, 60 if QUICK else 1000, QUICK)
    c.sample({"case": "par2-0", "ops": s.cases["par2-0"]})
    jobs.append(("par", exes["std"], g, s))
    # 3. free running threads
    g, s = Script(limit=120), Script(limit=120)
    ids = Sids((g, s))
    free_cases(c, g, s, ids, 24 if QUICK else 200, 60000)
    jobs.append(("free", exes["std"], g, s))
    if tsan_works(exes["tsan"], c):
        g, s = Script(limit=200), Script(limit=200)
        ids = Sids((g, s))
        free_cases(c, g, s, ids, 10 if QUICK else 60, 6000)
        jobs.append(("tsan", exes["tsan"], g, s))
    else:
        c.assumptions.append("ThreadSanitizer does not run here: data races are only seen through wrong outputs")
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda j: run_stream_check(c, j[1], j[3], j[2], aspects=["out", "foot", "fpenv"] if j[0] != "free" else ["out", "fpenv"], name=j[0], parts=2, gexe=exes["std"]), jobs))
    c.assumptions += ["threads are preempted at accesses to chosen pages of their input and output buffers", "golden twins: one fresh object, alone, same blocks"]
    return c.finish()
