"""C14: AlignedArray."""
from stream import *


def fix_partial(path):
    """an operation during which the process died left an unfinished line: mark it as such"""
    out = []
    for line in open(path):
        line = line.strip()
        if not line:
            continue
        try:
            json.loads(line)
        except ValueError:
            line = '{"e":"died"}'
        out.append(line)
    # the system ended a process that used much memory: the case says nothing
    res, case = [], []
    for line in out:
        if line.startswith('{"e":"case"'):
            case = []
        case.append(line)
        if line.startswith('{"e":"end"'):
            if '"id":"big' in case[0].replace(" ", "") and any(x.replace(" ", "") == '{"e":"crash","sig":9}' for x in case):
                case = [case[0], case[-1]]
            res += case
            case = []
    out = res + case
    open(path, "w").write("\n".join(out) + "\n")


def main():
    c = Check("C14")
    rng = c.rng
    num = 400 if QUICK else 6000
    gen = c.path("gen.json")
    open(gen, "w").write(json.dumps({"depth": 26, "kinds": ["new", "vec", "copy", "copy", "assign", "assign", "set", "set", "set", "del"]}) + "\n")
    cfg = open(os.path.join(SPEC, "AaImpl.cfg")).read()
    if QUICK:
        cfg = cfg.replace("NMax = 2", "NMax = 1")
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(lambda: {v: build(v, "aa.cc") for v in ["std", "asan"] + ([] if QUICK else ["clang", "o0"])})
        fm = ex.submit(c.model, "AaImpl refines AlignedArray", "AaImpl", cfgtext=cfg, workers=4)
        fg = ex.submit(tlc, "AaGen", env={"GEN": gen}, workers=1, sim=(num, 60, SEED * 1000 + 5))
        P = "b + (Line - (b % Line))"
        fi = ex.submit(c.inductive, "AlignInd", () if QUICK else [("Slack == 2 * (Line - 1)", "Slack == Line - 1"), ("IF b % Line = 0 THEN b ELSE " + P, P),
                                                                  ("ELSE " + P, "ELSE b - (b % Line)")])
        exes, t = fb.result(), fg.result()
        fm.result()
        fi.result()
    hs = [json.loads(json.loads('"%s"' % x)) for x in re.findall(r'^"GEN (.*)"$', t.out, re.M)]
    if t.rc != 0 or len(hs) != num:
        raise CheckError("generator failed:\n" + t.out[-2000:])
    c.cov["generated_histories"] = num
    for v, exe in exes.items():
        s = Script()
        for k, h in enumerate(hs if v == "std" else hs[::3]):
            ty = "fdcsti"[k % 6]
            size, ops = {}, []
            pool = rng.choice(([0, 1, 2, 3, 4, 5, 7, 8, 9, 16], [0, 1, 15, 16, 17, 31, 32, 33, 48, 64], [0, 2, 63, 65, 100, 127, 128, 200, 255, 300]))
            for st in h:
                o, i = st[0], st[1]
                if o == "new" or o == "vec":
                    n = pool[st[2]] if st[2] else 0
                    size[i] = n
                    ops.append("%s %d %d" % (o, i, n) + ("" if o == "new" else "".join(" %d" % rng.randrange(-100, 101) for _ in range(n))))
                elif o in ("copy", "assign"):
                    size[st[2]] = size[i]
                    ops.append("%s %d %d" % (o, i, st[2]))
                elif o == "set":
                    if size[i]:
                        p = {1: 1, 2: size[i], 3: rng.randrange(size[i]) + 1}[st[2]]
                        ops.append("set %d %d %d" % (i, p, rng.randrange(-100, 101)))
                else:
                    size.pop(i)
                    ops.append("del %d" % i)
            ops += ["del %d" % i for i in size]
            s.case("%s-h%d" % (v, k), ops, t=ty)
        # every size class: construct, fill completely, copy, destroy
        for ty in "fdcsti":
            for n in list(range(0, 70, 1 if v == "std" else 5)) + [127, 128, 129, 1000]:
                fill = ["set 0 %d %d" % (q, (q * 7) % 100) for q in sorted({1, 2, n // 2, n - 1, n}) if 1 <= q <= n]
                s.case("%s-%s%d" % (v, ty, n), ["new 0 %d" % n] + fill + ["copy 0 1", "vec 2 %d %s" % (n, " ".join(str((q * 5) % 90) for q in range(n))), "assign 2 0", "assign 1 2", "del 0"]
                       + (["set 1 %d 3" % n] if n else []) + ["assign 1 1", "del 2", "del 1"], t=ty)
        if v == "std":
            c.sample({"case": list(s.cases)[0], "ops": s.cases[list(s.cases)[0]][:20]})
        # sizes beyond every 16 and 32 bit count, as far as memory permits
        if v == "std":
            mem = next((int(x.split()[1]) >> 10 for x in open("/proc/meminfo") if x.startswith("MemAvailable")), 0)
            big = [("c", 2 ** 16 + 3, 1), ("d", 2 ** 16 + 1, 1), ("f", 2 ** 24 + 5, 1)]
            if mem > 14000:
                big += [("c", 2 ** 32 + 77, 0)]
            if mem > 14000 and not QUICK:
                big += [("c", 2 ** 31 + 9, 1), ("f", 2 ** 30 + 5, 0), ("d", 2 ** 29 + 5, 0)]
            for q, (ty, n, cp) in enumerate(big):
                s.case("big%d" % q, ["new 0 3", "big 1 %d %d %d" % (n >> 16, n & 65535, cp), "del 0"], t=ty)
            c.cov["largest_array_elements"] = max(n for _, n, _ in big)
        run_stream_check(c, exe, s, None, aspects=[], name=v, module="AaTrace", parts=4, post=fix_partial)
        if c.violations:
            break
    c.assumptions = ["element types: float, double, signed char, short and two types that count constructions and destructions",
                     "blocks end within 64 bytes of an inaccessible page and are filled with garbage (std build); asan build in addition"]
    return c.finish()
