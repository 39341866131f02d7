#!/usr/bin/env python3-vt
"""corrupt.py ID [N] : binding test.  Runs check ID, corrupts one observation in each of N of its recorded cases and lists,
per event and field, how many of the corrupted cases the trace specification still accepts."""
import importlib, json, os, random, sys, threading, collections
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import vlib
PID, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 120
rng = random.Random(5)
jobs, lock = [], threading.Lock()
orig = vlib.Check.validate


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path + ("#",)
        for k, v in list(enumerate(x))[:60]:
            yield from leaves(v, path + (k,))
    elif isinstance(x, int) or isinstance(x, str):
        yield path


def corrupt(ev):
    ls = [p for p in leaves(ev) if p != ("e",)]
    by = collections.defaultdict(list)
    for p in ls:
        by[tuple(k for k in p if isinstance(k, str))].append(p)
    field = rng.choice(list(by))
    p = rng.choice(by[field])
    x = ev
    for k in p[:-1]:
        x = x[k]
    k = p[-1]
    if k == "#":
        if not x:
            return None
        x.pop(rng.randrange(len(x)))
        how = "shorter"
    elif isinstance(x[k], str):
        return None
    else:
        d = rng.choice([1, -1, 1000, 3000000]) if abs(x[k]) < 2 ** 30 else -1000
        x[k] += d
        how = "%+d" % d
    return field, how


def validate(self, name, module, env, ncases, nevents, **kw):
    t = orig(self, name, module, env, ncases, nevents, **kw)
    lines = open(env["TRACE"]).read().split("\n")[:-1]
    cases, cur = [], []
    if lines[0].startswith('{"e":"case"') or lines[0].startswith('{"e": "case"'):
        for x in lines:
            cur.append(x)
            if x.startswith(('{"e":"end"', '{"e": "end"')):
                cases.append(cur)
                cur = []
    else:
        cases = [[x] for x in lines]
    with lock:
        for _ in range(N):
            cs = rng.choice(cases)
            k = rng.randrange(len(cs)) if len(cs) == 1 else rng.randrange(1, len(cs) - 1) if len(cs) > 2 else None
            if k is None:
                continue
            ev = json.loads(cs[k])
            r = corrupt(ev)
            if r:
                kw2 = {a: b for a, b in kw.items() if a in ("heap",)}
                jobs.append((module, dict(env), cs[:k] + [json.dumps(ev)] + cs[k + 1:], ev.get("e", ev.get("k", "?")), r, kw2))
    rng.shuffle(jobs)
    del jobs[4 * N:]
    return t


vlib.Check.validate = validate
fin = vlib.Check.finish


def finish(self):
    rng.shuffle(jobs)
    tab = collections.defaultdict(lambda: [0, 0, []])

    def one(q):
        module, env, lines, e, (field, how), kw = jobs[q]
        p = self.path("corrupt%d" % q)
        open(p, "w").write("\n".join(lines) + "\n")
        t = vlib.tlc(module, env=dict(env, TRACE=p), workers=1, timeout=300, **kw)
        os.unlink(p)
        with lock:
            row = tab[(module, e, ".".join(field))]
            row[0 if t.rejected else 1] += 1
            if t.ok:
                row[2].append(how)
            elif not t.rejected:
                row[2].append("ERROR")
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, range(min(N, len(jobs)))))
    for k in sorted(tab, key=str):
        print("%-15s %-9s %-14s rejected %3d accepted %3d %s" % (k + tuple(tab[k][:2]) + (" ".join(tab[k][2])[:60],)))
    return fin(self)


vlib.Check.finish = finish
sys.exit(importlib.import_module("check_" + PID.lower()).main())
