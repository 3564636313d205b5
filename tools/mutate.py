#!/usr/bin/env python3
"""Mutation testing of the monitors, in scratch copies of /repo under /tmp/mut.

  mutate.py list                      how many mutants, per file
  mutate.py run [--files a.rs,b.rs] [--sample N] [--seed N] [--jobs N]
        every mutant: build the monitor with it, run every property's monitor
        for a moment, and if all are quiet the stable tests; results are
        appended to /tmp/mut/results.jsonl (already tried ones are skipped)
  mutate.py survivors [--files ..] [--jobs N] [--secs N]
        of the caught ones, which survive the stable tests, and for those,
        which properties' monitors catch them within N seconds;
        appended to /tmp/mut/survivors.jsonl
  mutate.py show [survived|untested|killed]
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
OUT = f"{ROOT}/results.jsonl"
PROPS = ["C03", "C16", "C07", "C10", "C14", "C08", "C01", "C02", "C06", "C09", "C11", "C12", "C13", "C18", "C19", "C04", "C05", "C15"]
FILES = ["anchor", "backlog", "deletion", "encode", "encoded_replica", "gtree", "insertion", "leb128", "replica",
         "run_indices", "run_tree", "text", "utils", "version_map"]

SWAPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
         (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
         (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"Bias::Left", ["Bias::Right"]), (r"Bias::Right", ["Bias::Left"]),
         (r"\.start\b(?!\()", [".end"]), (r"\.end\b(?!\()", [".start"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
         (r"\bcontinue\b", ["break"]), (r"\bbreak\b(?! ')", ["continue"]), (r"(?<=[ (])!(?=[a-z(])", [""]),
         (r"\.next\(\)", [".next_back()"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
         (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.len\(\)", [".len() + 1"]),
         (r"\.first\b", [".last"]), (r"\.last\b", [".first"]), (r"\.take\((\w+)\)", [""]),
         (r"\bif (?!let)(.*) \{$", ["if true {", "if false {"]), (r"\breturn (\S.*);$", [""]), (r"\breturn;$", [""]),
         (r"\bSome\((\w[^()]*)\)$", ["None"]), (r"\.\.=", [".."]), (r"\b(\w+)\.\.(\w+)\b", [r"\2..\1"]),
         (r"Ordering::Less", ["Ordering::Greater"]), (r"Ordering::Greater", ["Ordering::Less"])]


def code_lines(text):
    """The numbers of the lines that are code of the library."""
    lines = text.split("\n")
    skip_until = None
    depth = 0
    res = []
    for i, l in enumerate(lines):
        s = l.strip()
        if skip_until is None and (re.match(r"(#\[cfg\(test\)\])", s) or re.match(r"mod (debug|tests) \{|(pub )?mod (debug|tests) \{|impl.*Debug for|impl.*Display for", s)):
            skip_until = depth
            pending = True
        opens, closes = l.count("{"), l.count("}")
        if s.startswith("//"):
            opens = closes = 0
        depth += opens - closes
        if skip_until is not None:
            if opens:
                pending = False
            if not pending and depth <= skip_until:
                skip_until = None
            continue
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use ") or "debug_assert" in s or "assert_invariants" in s:
            continue
        res.append(i)
    return lines, res


def mutants(files):
    res = []
    for f in files:
        path = f"/repo/src/{f}.rs"
        lines, ok = code_lines(open(path).read())
        oks = set(ok)
        for i in ok:
            l = lines[i]
            code = l.split("//")[0]
            if re.match(r"\s*(pub |pub\(crate\) |fn |impl|struct|enum|where|type |const )", code) and "{" not in code.replace("{ ", "", 1):
                if " fn " in code or code.strip().startswith(("fn ", "impl", "struct", "type ", "where", "pub")):
                    continue
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    if pat.startswith(r" >") or pat.startswith(r" <"):
                        if "->" in code[max(0, m.start() - 1):m.end() + 1] or "=>" in code[max(0, m.start() - 1):m.end() + 1]:
                            continue
                    for rep in reps:
                        new = code[:m.start()] + m.expand(rep) + code[m.end():]
                        if new != code:
                            res.append((f, i, i + 1, [new]))
            # Statement deletion.
            s = code.strip()
            prev = next((lines[j].split("//")[0].strip() for j in range(i - 1, -1, -1) if lines[j].split("//")[0].strip()), "")
            if prev.endswith((";", "{", "}", ",")) and not s.startswith(("let ", "}", "return", "const ", "type ", "fn ", "pub", "impl", "#", "match ", "if ", "for ", "while ", "loop", "unsafe", "struct", "else", "mod ", "Some(", "Ok(", "None")):
                if s.startswith("self") or re.match(r"[\w\.\*\(\)]+(\s*[-+]?=[^=>]|\.\w+\(|\()", s):
                    for j in range(i, min(i + 12, len(lines))):
                        t = lines[j].split("//")[0].rstrip()
                        block = "\n".join(lines[i:j + 1])
                        if t.endswith(";") and block.count("(") == block.count(")") and block.count("{") == block.count("}"):
                            res.append((f, i, j + 1, []))
                            break
                        if not t:
                            break
    seen, uniq = set(), []
    for m in res:
        k = hashlib.sha1(repr((m[0], m[1], m[2], m[3], lines_of(m))).encode()).hexdigest()[:12]
        if k not in seen:
            seen.add(k)
            uniq.append((k, m))
    return uniq


_cache = {}


def lines_of(m):
    if m[0] not in _cache:
        _cache[m[0]] = open(f"/repo/src/{m[0]}.rs").read().split("\n")
    return _cache[m[0]][m[1]:m[2]]


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True, errors="replace")
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "", "timeout"


class Slot:
    def __init__(self, n):
        self.d = f"{ROOT}/s{n}"
        if not os.path.exists(f"{self.d}/repo"):
            os.makedirs(self.d, exist_ok=True)
            sh(f"git clone -q /repo {self.d}/repo")
        sh("git checkout -q -- . && git pull -q", cwd=f"{self.d}/repo")
        sh(f"rsync -a --delete --checksum {VERIF}/harness/ {self.d}/harness/; cp -a {VERIF}/reference {self.d}/; sed -i 's#\"/repo\"#\"{self.d}/repo\"#' {self.d}/harness/Cargo.toml")
        t = open("/opt/vp/env.sh").read()
        t = re.sub("(?m)^REPO=.*", f"REPO={self.d}/repo", t)
        t = re.sub("(?m)^WS=.*", f"WS={self.d}/ws", t)
        t = re.sub("(?m)^export CARGO_TARGET_DIR=.*", f"export CARGO_TARGET_DIR={self.d}/tests", t)
        open(f"{self.d}/env.sh", "w").write(t)
        os.makedirs(f"{self.d}/ws", exist_ok=True)

    def apply(self, m):
        f, a, b, new = m
        p = f"{self.d}/repo/src/{f}.rs"
        lines = open(f"/repo/src/{f}.rs").read().split("\n")
        lines[a:b] = new
        open(p, "w").write("\n".join(lines))

    def undo(self, m):
        shutil.copy(f"/repo/src/{m[0]}.rs", f"{self.d}/repo/src/{m[0]}.rs")

    def build(self, profile="dev"):
        rc, o, e = sh(f"cargo build --offline {'--release' if profile == 'release' else ''} -q", cwd=f"{self.d}/harness", env={"CARGO_TARGET_DIR": f"{self.d}/target", "RUSTFLAGS": "-Awarnings"})
        return rc == 0

    def monitor(self, prop, secs, profile="dev", seed=1, first=0):
        exe = f"{self.d}/target/{'debug' if profile == 'dev' else 'release'}/cola-monitor"
        rc, o, e = sh(f"ulimit -v 5000000; exec {exe} worker {prop} quick {seed} {first} 1 1000000 {secs}", timeout=secs + 100)
        v = re.search(r'"t":"violation".*', o) or re.search(r'.*"violation".*', o)
        for l in o.splitlines():
            if '"t":"violation"' in l:
                d = json.loads(l)
                return f"{'/'.join(d['oracles'])}: {d['msg'][:200]}"
        if rc != 0:
            return f"died with {rc}: {e[-200:]}"
        return None

    def tests(self):
        # Without the documentation tests first: most are killed without.
        for what in ["--lib --tests", "--doc"]:
            rc, o, e = sh(f". {self.d}/env.sh; prepare; cargo test --all-features --no-fail-fast --offline {what} -- --test-threads 4", timeout=600)
            bad = re.findall(r"^test (.*) \.\.\. FAILED$", o, re.M)
            if bad:
                return "killed by " + ", ".join(bad[:6])
            if rc != 0:
                return "killed: " + (e or o)[-300:]
        return None


def desc(m):
    old = " / ".join(x.strip() for x in lines_of(m))
    new = " / ".join(x.strip() for x in m[3]) or "(deleted)"
    return f"{m[0]}.rs:{m[1] + 1}: {old}  ->  {new}"


def run(args):
    todo = mutants(args["files"])
    done = set()
    if os.path.exists(OUT):
        done = {json.loads(l)["key"] for l in open(OUT)}
    todo = [t for t in todo if t[0] not in done]
    random.Random(args["seed"]).shuffle(todo)
    if args["sample"]:
        todo = todo[:args["sample"]]
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    print(f"{len(todo)} mutants", flush=True)

    def work(n):
        s = Slot(n)
        while True:
            try:
                k, m = q.get_nowait()
            except queue.Empty:
                return
            t0 = time.time()
            s.apply(m)
            res = {"key": k, "m": m, "desc": desc(m)}
            if not s.build():
                res["status"] = "unbuildable"
            else:
                res["status"] = None
                for i, p in enumerate(PROPS):
                    v = s.monitor(p, 2 if i < 6 else 1)
                    if v:
                        res["status"], res["by"] = "caught", f"{p} {v}"
                        break
                if not res["status"]:
                    t = s.tests()
                    res["status"] = "untested" if t is None else "testonly"
                    res["by"] = t
            s.undo(m)
            res["s"] = round(time.time() - t0, 1)
            with lock:
                with open(OUT, "a") as f:
                    f.write(json.dumps(res) + "\n")

    ts = [threading.Thread(target=work, args=(i,)) for i in range(args["jobs"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def survivors(args):
    out = f"{ROOT}/survivors.jsonl"
    done = {json.loads(l)["key"] for l in open(out)} if os.path.exists(out) else set()
    todo = []
    for l in open(OUT):
        d = json.loads(l)
        if d["status"] == "caught" and d["key"] not in done and d["m"][0] in args["files"]:
            if lines_of(d["m"]) and desc(d["m"]) == d["desc"]:
                todo.append(d)
    random.Random(args["seed"]).shuffle(todo)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    print(f"{len(todo)} mutants", flush=True)

    def work(n):
        s = Slot(n)
        while True:
            try:
                d = q.get_nowait()
            except queue.Empty:
                return
            s.apply(d["m"])
            t = s.tests()
            res = {"key": d["key"], "desc": d["desc"], "m": d["m"], "tests": t, "by": {}}
            if t is None and s.build():
                for p in PROPS:
                    v = s.monitor(p, args["secs"])
                    if v:
                        res["by"][p] = v[:150]
            s.undo(d["m"])
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(res) + "\n")

    ts = [threading.Thread(target=work, args=(100 + i,)) for i in range(args["jobs"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def main():
    a = sys.argv[2:]
    opt = {"files": FILES, "sample": 0, "seed": 1, "jobs": 8, "secs": 5}
    i = 0
    while i < len(a):
        if a[i] == "--files":
            opt["files"] = a[i + 1].split(",")
            i += 1
        elif a[i].startswith("--"):
            opt[a[i][2:]] = int(a[i + 1])
            i += 1
        i += 1
    os.makedirs(ROOT, exist_ok=True)
    if sys.argv[1] == "list":
        ms = mutants(opt["files"])
        c = {}
        for k, m in ms:
            c[m[0]] = c.get(m[0], 0) + 1
        print(len(ms), c)
        for k, m in random.Random(opt["seed"]).sample(ms, min(opt["sample"], len(ms))):
            print(desc(m))
    elif sys.argv[1] == "run":
        run(opt)
    elif sys.argv[1] == "survivors":
        survivors(opt)
    elif sys.argv[1] == "show":
        want = a[0] if a else "untested"
        for l in open(OUT):
            d = json.loads(l)
            if d["status"] == want:
                print(d["key"], d["desc"], "##", d.get("by"))
        from collections import Counter
        print(Counter(json.loads(l)["status"] for l in open(OUT)))


main()
