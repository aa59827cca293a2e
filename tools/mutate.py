#!/usr/bin/env python3
"""Sensitivity measurement: plants small random changes in the code under test (in
a scratch copy) and runs the simulations of the component against each.
usage: mutate.py COMPONENT FILE COUNT SEED [SECS [SET]]      results on stdout, survivors with their context
SET 1: operators, constants, dropped statements; SET 2: names confused, statements exchanged, numbers off by one"""
import os, random, re, shutil, subprocess, sys, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
comp, fn, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
secs = float(sys.argv[5]) if len(sys.argv) > 5 else 4
mset = int(sys.argv[6]) if len(sys.argv) > 6 else 1
D = f"/tmp/mutate-{comp}-{os.getpid()}"
os.environ.update(SIM_REPO=D, SIM_BUILD=D + "/build", VERIF_SEED="1", VERIF_TIER="quick")
sys.path.insert(0, V)
import check  # noqa: E402
from props import CHECKS  # noqa: E402
runs = []
for c in CHECKS.values():
    for r in c["runs"]:
        if r[0] == comp and (r[0], r[1]) not in runs:
            runs.append((r[0], r[1]))
src = open("/repo/" + fn).read()
lines = src.split("\n")

# ---- mutation points: (line, description, new text of the line) --------------------
def mutants():
    out = []
    skip = re.compile(r"^\s*(//|#|\*|template|using|static_assert|namespace|friend|typedef|public:|private:|protected:)|BTREE_(DEBUG_ASSERT|UPDATE_STAT)|ART_DEBUG|assert\(|STATIC_KEY_ONLY|enable_if|typename")
    for i, ln in enumerate(lines):
        if skip.search(ln) or not ln.strip():
            continue
        code = ln.split("//")[0]
        def sub(pat, rep, what):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((i, what, new))
        sub(r" < (?![^;]*> )", " <= ", "< to <=")
        sub(r" > ", " >= ", "> to >=")
        sub(r" <= ", " < ", "<= to <")
        sub(r" >= ", " > ", ">= to >")
        sub(r" == ", " != ", "== to !=")
        sub(r" != ", " == ", "!= to ==")
        sub(r" && ", " || ", "&& to ||")
        sub(r" \|\| ", " && ", "|| to &&")
        sub(r" \+ 1\b", "", "drop + 1")
        sub(r" - 1\b", "", "drop - 1")
        sub(r"\btrue\b", "false", "true to false")
        sub(r"\bfalse\b", "true", "false to true")
        sub(r"!(?=[a-zA-Z_(])", "", "drop !")
        sub(r"\bif \((?!constexpr)", "if (true || ", "if always")
        sub(r"\bif \((?!constexpr)", "if (false && ", "if never")
        sub(r"\bwhile \(", "while (false && ", "while never")
        sub(r"memory_order_(release|acquire|seq_cst|acq_rel)", "memory_order_relaxed", "relaxed")
        sub(r"\bstd::(lock_guard|unique_lock|scoped_lock)\b.*;", ";", "drop lock")
        sub(r"\bEpochGuard \w+[({].*;", ";", "drop guard")
        sub(r"\+\+(?=;)|(?<=\s)\+\+(?=\w+;)", "", "drop ++")
        sub(r"--(?=;)|(?<=\s)--(?=\w+;)", "", "drop --")
        if re.match(r"^\s+[\w\->.\[\]:*()]+(\(.*\)|\s*[-+|&]?=\s*[^=].*);\s*$", code) and not re.match(r"^\s+(return|delete|const|auto|break|continue|using|static|else|case|int|bool|char|size_t|uint\w+|std::\w+<)\b", code):
            out.append((i, "drop statement", re.match(r"^\s*", code).group(0) + ";"))
        if re.match(r"^\s+continue;", code):
            out.append((i, "continue to ;", ";"))
        if re.match(r"^\s+(break);", code):
            out.append((i, "break to ;", ";"))
    return out

PAIRS = [("left", "right"), ("low", "high"), ("lower", "upper"), ("next", "prev"), ("first", "second"), ("min", "max"), ("begin", "end"),
         ("inner", "leaf"), ("parent", "child"), ("old", "new"), ("INCLUSIVE", "EXCLUSIVE"), ("forward", "reverse"), ("insert", "delete"), ("4", "16"), ("48", "256"),
         ("LB", "UB"), ("num_values", "num_tomb_stones"), ("less", "less_equal"), ("key", "split_key"), ("node", "parent"), ("pos", "slot")]
def mutants2():
    out = []
    skip = re.compile(r"^\s*(//|#|\*|template|using|static_assert|namespace|friend|typedef|public:|private:|protected:)|BTREE_(DEBUG_ASSERT|UPDATE_STAT)|ART_DEBUG|assert\(|enable_if|typename")
    simple = re.compile(r"^(\s+)(?!return|delete|const|auto|break|continue|using|static|else|case|int |bool |char )[\w*].*;\s*$")
    for i, ln in enumerate(lines):
        if skip.search(ln) or not ln.strip():
            continue
        code = ln.split("//")[0]
        for a, b in PAIRS:
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r"(?<![a-zA-Z0-9])" + x + r"(?![a-zA-Z0-9])", code):
                    out.append((i, f"{x} to {y}", code[:m.start()] + y + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            for d in (-1, 1):
                if int(m.group(1)) + d >= 0:
                    out.append((i, "number", code[:m.start()] + str(int(m.group(1)) + d) + code[m.end():]))
        for m in re.finditer(r"\((\w+), (\w+)\)", code):
            out.append((i, "swap arguments", code[:m.start()] + f"({m.group(2)}, {m.group(1)})" + code[m.end():]))
        for m in re.finditer(r" \+ | - ", code):
            out.append((i, "+ for -", code[:m.start()] + (" - " if m.group(0) == " + " else " + ") + code[m.end():]))
        for m in re.finditer(r" ([<>])(=?) (?![^;]*> )", code):
            out.append((i, "reverse comparison", code[:m.start()] + f" {'<' if m.group(1) == '>' else '>'}{m.group(2)} " + code[m.end():]))
        j = i + 1
        while j < len(lines) and not lines[j].strip():
            j += 1
        a, b = simple.match(ln), j < len(lines) and simple.match(lines[j])
        if a and b and a.group(1) == b.group(1) and lines[i - 1].rstrip()[-1:] in (";", "{", "}", ""):
            out.append((i, "exchange statements", (j, lines[j], ln)))
        if re.match(r"^\s+return (?!.*(nullptr|false|true);)\w", code) and code.rstrip().endswith(";"):
            out.append((i, "return default", "return {};"))
    return out

ms = mutants() if mset == 1 else mutants2()
random.Random(seed).shuffle(ms)
print(f"{fn}: {len(ms)} possible mutants, {len(runs)} profiles, {count} drawn with seed {seed}", flush=True)
stats = {"caught": 0, "survived": 0, "invalid": 0}
done = 0
for i, what, new in ms:
    if done >= count:
        break
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    for d in ("include", "src"):
        shutil.copytree("/repo/" + d, D + "/" + d)
    l2 = list(lines)
    if isinstance(new, tuple):
        l2[i], l2[new[0]] = new[1], new[2]
        new = new[1] + " <-> " + lines[i].strip()
    else:
        l2[i] = new
    open(f"{D}/{fn}", "w").write("\n".join(l2))
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            check.build(comp)
        except SystemExit:
            os._exit(1)
        os._exit(0)
    if os.waitpid(pid, 0)[1]:
        stats["invalid"] += 1
        continue
    exe = check.build(comp)
    done += 1
    caught = None
    ids = [k["id"] for k in check.known_findings() if k["component"] == comp]
    for _, prof in runs:
        r = subprocess.run([exe, "run", "--seed", str(check.seed_for(1, comp, prof)), "--secs", str(secs), "--profile", prof, "--out", D + "/x.replay",
                            "--min-budget", "0"] + (["--known", ",".join(ids)] if ids else []), capture_output=True, text=True)
        if r.returncode:
            try:
                v = json.loads(r.stdout.strip().split("\n")[-1])
                caught = (prof, v["violation"]["class"] if "violation" in v else v.get("error"), v["runs"])
            except Exception:
                caught = (prof, "simulator rc %d" % r.returncode, 0)
            break
    stats["caught" if caught else "survived"] += 1
    if caught:
        print(f"caught   {i+1} {what}: {lines[i].strip()}  -- {caught}", flush=True)
    else:
        print(f"SURVIVED {i+1} {what}: {lines[i].strip()}\n      -> {new.strip()}", flush=True)
print(stats)
shutil.rmtree(D, ignore_errors=True)
