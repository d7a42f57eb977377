#!/usr/bin/env python3
"""Development tool, no check: systematic small changes.

mutate.py list                          how many there are, per file
mutate.py [-j N] [-o OUT] [-s SEED] [-n MAX] [-f FILE] run
mutate.py [-o OUT] left                 those that the tests and the checks let pass

Each changed tree that still builds and passes the stable tests is shown to the checks, the likeliest ones first, until
one fires. Works in copies in private mount namespaces, as plant.py does.
"""
import argparse, json, os, queue, random, re, subprocess, sys, threading
sys.argv, argv = ["plant.py", "-h"], sys.argv
W = "/tmp/mut"
ORDER = {
 "apply_text.rs": "C10 C09 C08 C07 C25 C24 C01 C16", "apply_bytes.rs": "C11 C25 C02 C07 C16", "changes.rs": "C03 C05 C04 C24 C01 C02 C20 C19",
 "common_subsequence.rs": "C24 C05 C03", "sequence.rs": "C24 C12 C11 C04", "snippet.rs": "C24 C11 C06 C12", "byte_diff.rs": "C11 C02 C06 C13 C12 C25",
 "text_diff.rs": "C01 C06 C13 C12 C24 C18", "diff.rs": "C13 C06 C12", "range.rs": "C24 C03 C11", "unified_diff.rs": "C17 C19 C18 C20 C24", "lib.rs": "C20 C17",
 "pw_patch/src/main.rs": "C16 C14 C15 C23 C22", "pw_diff/src/main.rs": "C13 C23 C22",
}
REST = "C24 C05 C16 C14 C25 C23 C06 C12 C13 C18 C10 C22"
FILES = ["pw_diff_lib/src/" + f for f in "apply_text.rs apply_bytes.rs changes.rs common_subsequence.rs sequence.rs snippet.rs byte_diff.rs text_diff.rs diff.rs range.rs".split()] + \
        ["pw_cub_diff_lib/src/" + f for f in "unified_diff.rs lib.rs text_diff.rs".split()] + ["pw_patch/src/main.rs", "pw_diff/src/main.rs"]
SWAPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"!reverse\b", ["reverse"]), (r"(?<=[ (])reverse(?=[,)])", ["!reverse"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
 (r"\.0\b(?!\.)", [".1"]), (r"\.1\b", [".0"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"(?<![\w.#])\d+(?:usize|u8)?\b(?!\])", ["+1"]),
 (r"\?;", ["IGNORE"]), (r"\.rev\(\)", [""]), (r"before_start\(", ["before_end("]), (r"before_end\(", ["before_start("]), (r"after_start\(", ["after_end(", "before_start("]),
 (r"after_end\(", ["after_start(", "before_end("]), (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !NEG "]), (r"self\.before\b", ["self.after"]), (r"self\.after\b", ["self.before"]),
 (r"Some\(reductions\)", ["None"]), (r"\boffset\b(?=[,)])", ["0"]), (r"break;", ["{}"]), (r"log::info!", ["log::warn!"]), (r"log::warn!", ["log::error!"]), (r"log::error!", ["log::warn!"]),
 (r"is_negative\(\)", ["is_positive()"]), (r"exit\(\d+\)", ["exit(0)"]), (r"is_empty\(\)", ["is_empty() == false"]), (r"push\(", ["insert(0, "]), (r"\bisize\b", ["i16"]), (r"as usize", ["as u8 as usize"]),
 (r"File::create_new", ["File::create"]), (r"starts_with", ["contains"]), (r"split_inclusive", ["split"]), (r"'-'", ["'+'"]), (r"'\+'", ["'-'"])]
def source(f): return open(f"/repo/{f}").read().split("\n")
def mutants(f):
    out = []
    for i, l in enumerate(source(f)):
        if "#[cfg(test)]" in l and "mod" in "".join(source(f)[i:i + 2]): break
        s = l.strip()
        if not s or s.startswith(("debug_assert", "log::", "//", "#", "use ", "pub use", "mod ", "pub mod", "fn ", "pub fn ", "impl", "pub trait", "pub struct", "}")): continue
        for pat, news in SWAPS:
            for m in re.finditer(pat, l):
                for new in news:
                    if new == "+1":
                        d = re.match(r"\d+", m.group()).group(); r = str(int(d) + 1) + m.group()[len(d):]
                    elif new == "IGNORE":
                        if s.startswith("let") or "=" in s.split("(")[0]: continue
                        ind = l[:len(l) - len(l.lstrip())]; n = ind + "let _ = " + l.lstrip()[:m.start() - len(ind)] + ";" + l[m.end():]
                        out.append((i, l, n)); continue
                    elif "NEG" in new:
                        rest = l[m.end():]; e = rest.rfind(" {")
                        if e < 0: continue
                        out.append((i, l, l[:m.start()] + "if !(" + rest[:e] + ")" + rest[e:])); continue
                    else: r = new
                    out.append((i, l, l[:m.start()] + r + l[m.end():]))
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "type ")) and s.count("(") == s.count(")"): out.append((i, l, l[:len(l) - len(s)] + "{}"))
    seen = set(); u = []
    for m in out:
        if (m[0], m[2]) not in seen and m[1] != m[2]: seen.add((m[0], m[2])); u.append(m)
    return u
a = argparse.ArgumentParser(); a.add_argument("-j", type=int, default=2); a.add_argument("-o", default="/tmp/mut.jsonl"); a.add_argument("-s", type=int, default=1); a.add_argument("-n", type=int, default=10**9); a.add_argument("-f", default=""); a.add_argument("cmd")
a = a.parse_args(argv[1:])
todo = [(f,) + m for f in FILES if a.f in f for m in mutants(f)]
if a.cmd == "list":
    from collections import Counter; c = Counter(t[0] for t in todo); [print(n, f) for f, n in c.items()]; print(len(todo)); sys.exit()
if a.cmd == "left":
    for l in open(a.o):
        d = json.loads(l)
        if d["what"] == "LEFT" or d["what"].startswith("BROKEN"): print(d["what"], d["file"], d["line"], "\n  -", d["old"].strip(), "\n  +", d["new"].strip())
    sys.exit()
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "plant.py")).read().split("def one(")[0].replace('W = "/tmp/plant"', 'W = "/tmp/mut"'))
done = set()
if os.path.exists(a.o): done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(a.o))}
random.Random(a.s).shuffle(todo); todo = [t for t in todo if (t[0], t[1] + 1, t[3]) not in done][:a.n]
q = queue.Queue(); [q.put(t) for t in todo]; lock = threading.Lock(); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def checks(f):
    o = next((v for k, v in ORDER.items() if f.endswith(k) and (k != "lib.rs" or "cub" in f)), "") if "cub_diff_lib/src/text_diff" not in f else "C18 C20"
    o = o.split(); return o + [c for c in REST.split() if c not in o]
def one(w, f, i, old, new):
    p = f"{w}/repo/{f}"; t = open(f"/repo/{f}").read().split("\n"); t[i] = new; open(p, "w").write("\n".join(t))
    try:
        r = inside(w, "timeout 120 bash /opt/vp/build.sh", 200)
        if r.returncode: return "nobuild"
        r = inside(w, f"rm -f {w}/out.json; timeout 120 bash /opt/vp/test.sh {w}/out.json >/dev/null 2>&1; cat {w}/out.json", 200)
        try:
            o = json.load(open(f"{w}/out.json")); passed = set(o.get("passed", o.get("pass", [])))
        except Exception: return "tests"
        if any(x not in passed for x in stable): return "tests"
        broken = []
        # first a twentieth of each check, then the whole of the likely ones
        for share, c in [(5, c) for c in checks(f)] + [(100, c) for c in checks(f)[:3]]:
            r = inside(w, f"cd /verif && VH_SHARE={share} VERIF_SEED=1 VERIF_TIER=quick timeout 300 nice -n 15 bash run.sh {c}", 400)
            if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout: return c + (" after " + ",".join(broken) if broken else "")
            if r.returncode != 0:
                broken.append(f"{c}:{r.returncode}")
                if len(broken) > 1: break
        return "BROKEN " + ",".join(broken) if broken else "LEFT"
    finally:
        open(p, "w").write("\n".join(source(f)))
def work(k):
    w = f"{W}/w{k}"; prepare(w)
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        what = one(w, f, i, old, new)
        with lock:
            open(a.o, "a").write(json.dumps(dict(file=f, line=i + 1, old=old, new=new, what=what)) + "\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.j)]; [t.start() for t in ts]; [t.join() for t in ts]
