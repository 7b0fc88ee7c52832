#!/usr/bin/env python3
"""Sensitivity measurement (not a check): mutates copies of /repo's sources one place at a time and runs the quick
checks, at a reduced number of cases, against each mutant. With MUT_RARE=1 the changes only show for many elements, high
orders, large or precise values. Usage: mutate.py WORKDIR N SEED [WORKERS] [FILE...]
Writes WORKDIR/result.jsonl (one line per mutant: file, line, old, new, killed by which check, or survived)."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
K = int(sys.argv[4]) if len(sys.argv) > 4 else 4
ONLY = sys.argv[5:]
SCALE = os.environ.get("MUT_SCALE", "0.15")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
         (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r" \+= ", " -= "), (r" -= ", " += "),
         (r" \*= ", " /= "), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "3"), (r"\b3\b(?!\.)", "2"),
         (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "1.0"), (r"\b0\.5\b", "0.25"), (r"\b0\.0\b", "1.0"), (r"\bif ", "if !"),
         (r"HRef::U\b", "HRef::V"), (r"HRef::V\b", "HRef::U"), (r"\.iter\(\)", ".iter().rev()"), (r"\bi\b", "j"), (r"\bj\b", "i"),
         (r"BasisDir::U", "BasisDir::V"), (r"BasisDir::V", "BasisDir::U"), (r"\.u\b", ".v"), (r"\.v\b", ".u"),
         (r"\bni\b", "nj"), (r"\bnj\b", "ni"), (r"dof_dir", "dir"), (r"Some\(", "None.or(")]
# changes that only show for many elements, high orders, large or precise values
RARE = [(r"\.len\(\)", ".len().min(50)"), (r"\.len\(\)", ".len().min(300)"), (r"\.iter\(\)", ".iter().take(33)"), (r"\.iter\(\)", ".iter().take(300)"),
        (r"\.iter_mut\(\)", ".iter_mut().take(70)"), (r"\.par_iter\(\)", ".par_iter().take(100)"), (r"\.keys\(\)", ".keys().take(40)"), (r"\.values\(\)", ".values().take(40)"),
        (r"\.drain\(0\.\.\)", ".drain(0..).take(40)"), (r"\.into_iter\(\)", ".into_iter().take(60)"),
        (r" as usize\b", " as u8 as usize"), (r" as usize\b", " as u16 as usize"), (r" as f64\b", " as f32 as f64"), (r"\.abs\(\)", ""),
        (r"\b(?:\w+(?:\[\w+\])?\.)+(?:x|y|length)\b", r"(\g<0> as f32 as f64)"), (r"\.powi\(2\)", ".powi(2).max(1e-14)"), (r"\.sqrt\(\)", ".max(1e-12).sqrt()"),
        (r"\bSome\((\w+)\) =>", r"Some(\1) if \1 < 90 =>"),
        (r"1e-(\d)\b", r"1e-1\1"), (r"1e-1(\d)\b", r"1e-\1")]
for w in ("elem_id", "edge_id", "node_id", "id", "idx", "i", "j", "m", "n", "k", "p", "q", "row_idx", "col_idx", "dim", "self.dimension", "child_idx", "level", "lvl", "order", "nu", "nv", "elem.id", "edge.id", "node.id", "self.id", "ni", "nj"):
    e = re.escape(w)
    for rep in ("(%s & 0xff)", "(%s & 0xfff)", "%s.min(14)", "%s.min(70)"):
        RARE.append((r"(?<![\w.|&*])(?<!let )(?<!for )(?<!mut )" + e + r"\b(?!\s*[:|(.=]| in\b|\]\)? =>)", rep % w))
        RARE.append((r"\*" + e + r"\b(?!\s*[:|(.=])", "(" + rep.replace("%s", "(*%s)") % w + ")"))
if os.environ.get("MUT_RARE"): SWAPS = RARE
def mutants():
    out = []
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "src"], capture_output=True, text=True).stdout.split()
    for f in files:
        if not f.endswith(".rs") or "max_ortho" in f or (ONLY and not any(o in f for o in ONLY)): continue
        lines = open("/repo/" + f).read().split("\n")
        intest = infmt = False
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l: intest = True
            s = l.strip()
            if "fn fmt" in l: infmt = True
            elif l.startswith("    }"): infmt = False
            if intest or infmt or not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "struct", "pub struct")): continue
            code = l.split("//")[0]
            if "assert" in code: continue
            for pat, rep in SWAPS:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2: continue
                    out.append((f, i, l, code[:m.start()] + m.expand(rep) + code[m.end():]))
            if not os.environ.get("MUT_RARE") and s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "type ", "}")):
                out.append((f, i, l, l[:len(l) - len(l.lstrip())] + "();"))
    return out
ms = mutants()
random.Random(SEED).shuffle(ms)
# the same number from every file as far as it goes
rank, seen = {}, {}
for m in ms: seen[m[0]] = rank[id(m)] = seen.get(m[0], -1) + 1
ms = sorted(ms, key=lambda m: rank[id(m)])[:N]
os.makedirs(W, exist_ok=True)
res = open(W + "/result.jsonl", "a")
lock = threading.Lock()
q = queue.Queue()
for m in ms: q.put(m)
ORDER = {"galerkin": ["C09", "C08", "C10"], "integr": ["C22", "C20", "C09", "C08", "C10"], "linalg": ["C15", "C14", "C12", "C13"], "slepc": ["C13"], "fields": ["C17", "C16"],
         "basis": ["C21", "C08"], "dof": ["C06", "C23"], "domain.rs": ["C06", "C24", "C23"], "mesh": ["C01", "C02", "C03", "C04", "C05", "C18", "C19", "C23"], "space": ["C25"]}
ALLP = ["C%02d" % i for i in range(1, 29)]
NEAR = {"mesh": ["C01", "C02", "C03", "C04", "C05", "C06", "C18", "C19", "C23", "C26"], "basis": ["C21", "C08", "C09", "C16", "C22"],
        "dof": ["C06", "C07", "C23", "C24", "C16"], "domain.rs": ["C06", "C07", "C23", "C24", "C16", "C09"], "fields": ["C16", "C17"],
        "galerkin": ["C08", "C09", "C10", "C24", "C28"], "integr": ["C20", "C22", "C08", "C09", "C28"], "linalg": ["C15", "C14", "C12", "C13"], "space": ["C25", "C26", "C01"]}
def checks(f):
    if os.environ.get("MUT_RARE"): return list(dict.fromkeys(x for k, v in NEAR.items() if k in f for x in v))
    first = next((v for k, v in ORDER.items() if k in f), [])
    return first + [x for x in ALLP if x not in first]
def worker(k):
    d = f"{W}/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/verif")
    subprocess.run(["cp", "-a", ROOT + "/harness", d + "/verif/harness"], check=True)
    shutil.rmtree(d + "/verif/harness/target", ignore_errors=True)
    for n in ("known_findings.txt", "regressions"):
        subprocess.run(["cp", "-a", f"{ROOT}/{n}", d + "/verif/"], check=True)
    t = d + "/verif/harness/Cargo.toml"
    s = open(t).read().replace('"/repo"', f'"{d}/repo"').replace("opt-level = 3", "opt-level = 2\nincremental = true")
    open(t, "w").write(s)
    env = dict(os.environ, FEM2D_VERIF_ROOT=d + "/verif", FEM2D_VERIF_SCALE=SCALE, FEM2D_VERIF_LIMIT_S="60", CARGO_BUILD_JOBS="4")
    build = ["cargo", "build", "--offline", "--release", "--manifest-path", d + "/verif/harness/Cargo.toml"]
    subprocess.run(build, env=env, capture_output=True)
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: break
        p = f"{d}/repo/{f}"
        orig = open(p).read()
        ls = orig.split("\n"); ls[i] = new
        open(p, "w").write("\n".join(ls))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        b = subprocess.run(build, env=env, capture_output=True)
        if b.returncode: r["result"] = "nobuild"
        else:
            r["result"] = "survived"
            for pr in checks(f):
                try:
                    c = subprocess.run([d + "/verif/harness/target/release/fem2d_verif", "check", pr, "quick", "1"], env=env, capture_output=True, text=True, timeout=700)
                    if c.returncode == 1: r["result"] = pr; r["why"] = c.stdout[-300:]; break
                    if c.returncode != 0: r["result"] = f"{pr}:rc{c.returncode}"; r["why"] = c.stderr[-300:]; break
                except subprocess.TimeoutExpired:
                    r["result"] = f"{pr}:timeout"; break
        open(p, "w").write(orig)
        with lock:
            res.write(json.dumps(r) + "\n"); res.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(K)]
[t.start() for t in ts]; [t.join() for t in ts]
