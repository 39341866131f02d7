#!/usr/bin/env python3
"""Mutation campaign: mutants.py COUNT SEED [FILEPATTERN] : small syntactic changes of the library, each run through the checks
until one reports a violation.  Results on stdout; works on scratch copies under /tmp only."""
import os, random, re, shutil, subprocess, sys, hashlib, time
REPO = "/repo"
CHK = os.environ.get("CHK", "/verif")
ORDER = {
    "pandaresampler.hh": "C12 C01 C02 C14 C06 C11 C10 C04 C03 C08 C13 C18",
    "pandaresampler.cc": "C01 C12 C03 C02 C06 C13 C07 C11 C04 C10 C18 C08 C05 C09 C15 C17",
    "PolyphaseIir2Designer.cpp": "C15", "mkiir.cc": "C15",
    "hiir": "C16 C03 C01 C09 C04 C02",
}
FILES = ["include/pandaresampler.hh", "include/pandaresampler/pandaresampler.cc", "filter-design/mkiir.cc"] + \
    ["include/pandaresampler/hiir/" + x for x in ("PolyphaseIir2Designer.cpp", "Downsampler2xFpuTpl.hpp", "Downsampler2xSse.hpp", "StageProcFpu.hpp", "StageProcSseV2.hpp",
                                                  "Upsampler2xFpuTpl.hpp", "Upsampler2xSse.hpp", "fnc.hpp")]


def mutants(path):
    src = open(os.path.join(REPO, path), newline="").read().split("\n")
    comment = neg = False
    for i, line in enumerate(src):
        s = line.strip()
        if "process_sample_neg" in s and not s.endswith(";"):        # not used by the library
            neg = True
        if neg:
            neg = line.rstrip() != "}"
            continue
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "assert")) or "NEON" in s or "PANDA_RESAMPLER_FN" in s:
            continue
        code = line.split("//")[0].split("/*")[0]

        def out(m, a, b, what):
            new = code[:a] + what + code[b:] + line[len(code):]
            return (path, i, new, "%s -> %s" % (m, what))
        if re.search(r"\d\.\d{4,}", code):                 # tables
            for m in re.finditer(r"\d\.(\d+)", code):
                k = m.start(1) + 3
                if k < m.end():
                    yield out(m.group(0), k, k + 1, str((int(code[k]) + 1) % 10))
            continue
        if "template" in code or "include" in code:
            continue
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", code):
            t = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m.group(1)]
            if m.group(1) in "<>" and not (code[m.start() - 1:m.start()] == " " and code[m.end():m.end() + 1] == " "):
                continue
            yield out(m.group(1), m.start(), m.end(), t)
        for m in re.finditer(r" ([+\-*/]) ", code):
            yield out(m.group(1), m.start(1), m.end(1), {"+": "-", "-": "+", "*": "+", "/": "*"}[m.group(1)])
        for m in re.finditer(r"(\+=|-=|&&|\|\||\btrue\b|\bfalse\b|\+\+|--|\bmin\b|\bmax\b)", code):
            yield out(m.group(1), m.start(), m.end(), {"+=": "-=", "-=": "+=", "&&": "||", "||": "&&", "true": "false", "false": "true", "++": "--", "--": "++", "min": "max", "max": "min"}[m.group(1)])
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            yield out(m.group(1), m.start(), m.end(), str(v + 1))
            if v > 0:
                yield out(m.group(1), m.start(), m.end(), str(v - 1))
        if re.match(r"^\s+[\w:\[\]\->.&* ]+(=|\().*;\s*$", code) and "return" not in code and not re.match(r"^\s*(const|float|double|uint|int|auto|typedef|using)\b", code):
            yield (path, i, re.match(r"^\s*", code).group(0) + ";", "deleted: " + s[:60])


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    rng = random.Random(seed)
    per = {}
    for f in FILES:
        if re.search(pat, f):
            ms = list(mutants(f))
            if ms:
                per[f] = ms
    picks = []
    for _ in range(count):
        f = rng.choices(list(per), weights=[min(len(v), 400) ** 0.5 for v in per.values()])[0]
        picks.append(rng.choice(per[f]))
    print({f: len(v) for f, v in per.items()})
    work = "/tmp/mutc/w%d" % os.getpid()
    killed = total = 0
    for f, i, new, what in dict.fromkeys(picks):
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        subprocess.check_call("cd %s && git archive HEAD | tar x -C %s" % (REPO, work), shell=True)
        p = os.path.join(work, f)
        src = open(p, newline="").read().split("\n")
        old = src[i]
        src[i] = new
        open(p, "w", newline="").write("\n".join(src))
        t = work + "/t.cc"
        open(t, "w").write('#define PANDA_RESAMPLER_HEADER_ONLY\n#include "pandaresampler.hh"\n#include "%s/harness/designer.cc"\n' % CHK if "Designer" in f else
                           '#include "%s"\n' % p if "mkiir" in f else '#define PANDA_RESAMPLER_HEADER_ONLY\n#include "%s/harness/rsh.cc"\n' % CHK)
        inc = ["-I", work + "/include"]

        def asm(d):
            h = ""
            for q in [t] + ([CHK + "/harness/hiir.cc"] if "hiir/" in f and "Designer" not in f else []):
                r = subprocess.run(["g++", "-std=c++14", "-w", "-O2", "-S", "-o", "-", q, "-I", "include"], capture_output=True, cwd=d)
                if r.returncode:
                    return None
                h += hashlib.md5(r.stdout).hexdigest()
            return h
        a = asm(work)
        if a is None:
            continue
        if "mkiir" not in f and a == asm(REPO):
            continue
        total += 1
        res, t0 = "SURVIVED", time.time()
        key = os.path.basename(f) if os.path.basename(f) in ORDER else "hiir"
        for c in ORDER[key].split():
            try:
                r = subprocess.run([CHK + "/bin/check", c], env=dict(os.environ, VERIF_REPO=work), capture_output=True, timeout=900, text=True)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                res = "killed " + c
                killed += 1
                break
            if rc != 0:
                res += " %s:rc=%s" % (c, rc)
        print("%-10s %4ds %s:%d  %s   [%s]" % (res, time.time() - t0, os.path.basename(f), i + 1, old.strip()[:90], what), flush=True)
    shutil.rmtree(work, ignore_errors=True)
    print("%d of %d killed" % (killed, total))


if __name__ == "__main__":
    main()
