#!/usr/bin/env python3
"""Mutation campaign: plants small random changes in a scratch copy of /repo one at a time and runs the checks that should
notice. Not part of any check. usage: mutate.py OUT.jsonl SEED file[:first-last]=C01,C02[=count] ..."""
import sys, os, re, random, subprocess, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")
out, seed = sys.argv[1], int(sys.argv[2])
rnd = random.Random(seed)
def muts(line):
    r = []
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("#", "*", "///", "template", "using", "namespace", "class", "struct")):
        return r
    def sub(pat, rep):
        for m in re.finditer(pat, code):
            n = code[:m.start()] + m.expand(rep) + code[m.end():]
            if n != code:
                r.append(n.rstrip("\n") + "\n")
    sub(r"(?<=[\w\)\]]) <= (?=[\w\(])", " < "); sub(r"(?<=[\w\)\]]) >= (?=[\w\(])", " > ")
    sub(r"(?<=[\w\)\]]) < (?=[\w\(])", " <= "); sub(r"(?<=[\w\)\]]) > (?=[\w\(])", " >= ")
    sub(r" == ", " != "); sub(r" != ", " == "); sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "); sub(r"(?<=[\w\)\]]) - (?=[\w\(])", " + ")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true"); sub(r"std::min", "std::max"); sub(r"std::max", "std::min")
    sub(r" \+= ", " -= "); sub(r" -= ", " += "); sub(r"\bif \((?!constexpr)", "if (!(bool)("[:0] + r"if (false && ")
    sub(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", r"\1+1"); sub(r" & ", " | "); sub(r" \| ", " & "); sub(r"\* ", "/ ") if re.search(r"\w \* \w", code) else None
    s = code.strip()
    if s.endswith(";") and re.match(r"^[\w:>.\-\(\)\[\]\*&]+(\(|\s*[+\-|&]?=\s)|^(\+\+|--)|^throw|^return;|^break;|^continue;", s) and not re.match(r"^(auto|const|int|unsigned|byte|size_t|std::\w+\s)", s) and s.count("(") == s.count(")"):
        r.append(re.match(r"\s*", line).group(0) + ";\n")
    return r
jobs = []
for spec in sys.argv[3:]:
    parts = spec.split("=")
    f, checks, count = parts[0], parts[1].split(","), int(parts[2]) if len(parts) > 2 else 15
    lo, hi = 1, 10**9
    if ":" in f:
        f, rg = f.split(":"); lo, hi = map(int, rg.split("-"))
    lines = open(BASE + "/sources/" + f).readlines()
    c = [(i, m) for i, l in enumerate(lines) if lo <= i + 1 <= hi for m in muts(l)]
    rnd.shuffle(c)
    jobs += [(f, i, lines[i], m, checks) for i, m in c[:count]]
rnd.shuffle(jobs)
R = os.environ.get("MUT_DIR", "/tmp/mut/repo")
shutil.rmtree(R, ignore_errors=True); subprocess.check_call(["cp", "-a", BASE, R])
done = set()
if os.path.exists(out):
    for l in open(out):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
for f, i, old, new, checks in jobs:
    if (f, i + 1, new.strip()) in done:
        continue
    p = R + "/sources/" + f
    src = open(BASE + "/sources/" + f).readlines()
    if src[i] != old:
        continue
    src[i] = new
    open(p, "w").writelines(src)
    res, by, t0, log = "survived", None, time.time(), {}
    for c in checks:
        try:
            q = subprocess.run(["python3", "check.py", c], cwd=V, env=dict(os.environ, SECUREFS_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            o = q.stdout.decode(errors="replace"); rc = q.returncode
        except subprocess.TimeoutExpired:
            o, rc = "timeout", -1
        log[c] = rc
        if "VIOLATION property=" in o:
            res, by = "caught", c; break
        if "error:" in o and "NOT RUN" in o:
            res = "nocompile"; break
        if rc not in (0, 1):
            res = "gap"; log[c] = o[-600:]
    open(p, "w").writelines(open(BASE + "/sources/" + f).readlines())
    open(out, "a").write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), result=res, by=by, t=round(time.time() - t0, 1), log=log)) + "\n")
