#!/usr/bin/env python3
"""Planted bugs, in scratch copies of /repo (never in /repo itself).

  bugs.py new NAME               make a scratch copy to plant a bug in, print its path
  bugs.py save NAME              write its diff to seeded/NAME/patch.diff
  bugs.py validate NAME...       it applies, builds, passes the tests; demo.sh tells it apart
  bugs.py check NAME[:C01,C02]...  run checks (by default the bug's own property's) against it
  bugs.py clean

A NAME is a folder of seeded/, or the path of a .diff file.
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/bugs"


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy(name):
    d = f"{ROOT}/{name}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(ROOT, exist_ok=True)
    r = sh(f"git clone -q /repo {d}")
    assert r.returncode == 0, r.stderr
    return d


def patch_of(name):
    if name.endswith(".diff"):
        return os.path.abspath(name)
    return f"{VERIF}/seeded/{name}/patch.diff"


def tests(d):
    t = open("/opt/vp/env.sh").read()
    t = re.sub("(?m)^REPO=.*", f"REPO={d}", t)
    t = re.sub("(?m)^WS=.*", f"WS={ROOT}/_ws", t)
    t = re.sub("(?m)^export CARGO_TARGET_DIR=.*", f"export CARGO_TARGET_DIR={ROOT}/_tests", t)
    open(f"{ROOT}/_env.sh", "w").write(t)
    os.makedirs(f"{ROOT}/_ws", exist_ok=True)
    r = sh(f". {ROOT}/_env.sh; prepare; cargo test --all-features --no-fail-fast --offline -- --test-threads 8")
    ok = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M))
    bad = re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, re.M)
    return ok, bad, r


def validate(name):
    s = f"{VERIF}/seeded/{name}"
    d = copy("_v_" + name)
    clean = sh(f"bash {s}/demo.sh", cwd=d, timeout=400)
    a = sh(f"git apply {patch_of(name)}", cwd=d)
    if a.returncode:
        return f"{name}: doesn't apply: {a.stderr}"
    t = time.time()
    dirty = sh(f"bash {s}/demo.sh", cwd=d, timeout=400)
    t = time.time() - t
    ok, bad, r = tests(d)
    meta = json.load(open(f"{s}/meta.json"))
    good = clean.returncode == 0 and dirty.returncode != 0 and not bad and ok >= 46
    shutil.rmtree(d)
    out = f"{'GOOD' if good else 'BAD '} {name} [{meta['property']}]: demo {clean.returncode} -> {dirty.returncode} ({t:.0f} s), tests {ok} ok, failed {bad}"
    if clean.returncode or ok < 46:
        out += "\n" + clean.stdout[-600:] + clean.stderr[-600:] + ("" if ok else r.stderr[-1500:])
    if dirty.returncode:
        err = (dirty.stdout + dirty.stderr).strip().splitlines()
        at = next((i for i, l in enumerate(err) if "panicked" in l), len(err) - 2)
        out += "\n      " + " | ".join(err[at:at + 2])[:300]
    return out


def check(arg, seed="1", tier="quick"):
    name, _, props = arg.partition(":")
    d = copy("_c")
    a = sh(f"git apply {patch_of(name)}", cwd=d)
    if a.returncode:
        return f"{name}: doesn't apply: {a.stderr}"
    if not props:
        props = json.load(open(f"{VERIF}/seeded/{name}/meta.json"))["property"]
    if props == "all":
        props = ",".join(json.loads(l)["id"] for l in open(f"{VERIF}/properties.jsonl"))
    v = f"{ROOT}/_verif"
    os.makedirs(v, exist_ok=True)
    sh(f"rsync -a --delete {VERIF}/harness/ {v}/harness/ || cp -a {VERIF}/harness {v}/; cp {VERIF}/check.py {v}/; cp -a {VERIF}/reference {v}/")
    t = open(f"{v}/harness/Cargo.toml").read().replace('"/repo"', f'"{d}"')
    open(f"{v}/harness/Cargo.toml", "w").write(t)
    res = []
    for p in props.split(","):
        t0 = time.time()
        r = sh(f"python3 {v}/check.py {p}", cwd=v, env={"VERIF_SEED": seed, "VERIF_TIER": tier})
        hit = f"VIOLATION property={p} " in r.stdout
        word = "caught" if r.returncode == 1 and hit else "missed" if r.returncode == 0 else f"ERROR {r.returncode}"
        m = re.search(r"  episode .*", r.stdout)
        n = re.search(r"(\d+) violations", r.stdout)
        res.append(f"{p} {word} ({n.group(1) if n else '?'}; {time.time() - t0:.0f} s) {m.group(0)[:260] if m else r.stdout[-500:] if 'ERROR' in word else ''}")
    return f"{name}:\n  " + "\n  ".join(res)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for n in args:
            print(copy(n))
    elif cmd == "save":
        for n in args:
            os.makedirs(f"{VERIF}/seeded/{n}", exist_ok=True)
            diff = sh("git diff", cwd=f"{ROOT}/{n}").stdout
            assert diff
            open(f"{VERIF}/seeded/{n}/patch.diff", "w").write(diff)
    elif cmd == "validate":
        for n in args or sorted(os.listdir(f"{VERIF}/seeded")):
            print(validate(n), flush=True)
    elif cmd == "check":
        for n in args or sorted(os.listdir(f"{VERIF}/seeded")):
            print(check(n, os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick")), flush=True)
    elif cmd == "clean":
        shutil.rmtree(ROOT, ignore_errors=True)


main()
