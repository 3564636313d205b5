#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--tier quick|thorough] [--seed N]
                 one episode:  check.py --replay FILE

Builds the monitor (/verif/harness) against /repo's working tree, runs its
workers, and turns what they report into a verdict:
  exit 0  the property held on everything that was run
  exit 1  violated, with `VIOLATION property=<id> replay=<path>` on stdout
  other   inconclusive (it doesn't build, the harness failed, nothing ran)
"""
import argparse, json, os, re, resource, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("COLA_REPO", "/repo")
TARGET = os.environ.get("COLA_TARGET", os.path.join(VERIF, "target"))
TRIPLE = "x86_64-unknown-linux-gnu"
HANG_CPU = 150          # seconds of CPU time one episode may take; they take less than 10
MAX_VIOLATIONS = 3

# How each build of the harness is made, and started.
BUILDS = {
    "dev": (["cargo", "build", "--offline"], {}, "debug/cola-monitor"),
    "release": (["cargo", "build", "--offline", "--release"], {}, "release/cola-monitor"),
    # Every edge of the control flow graph calls a counter (see cost.rs).
    "cost": (["cargo", "build", "--offline", "--release", "--target", TRIPLE],
             {"RUSTFLAGS": "--cfg cost -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"},
             f"cost/{TRIPLE}/release/cola-monitor"),
    "asan": (["cargo", "+nightly", "build", "--offline", "--target", TRIPLE],
             {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"},
             f"asan/{TRIPLE}/debug/cola-monitor"),
    "miri": (["cargo", "+nightly", "miri", "run", "--offline", "--", "rule", "C17"],
             {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}, None),
}


def env_of(build):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(BUILDS[build][1])
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, build) if build in ("asan", "miri", "cost") else TARGET
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4096"
    e["RUST_BACKTRACE"] = "0"
    return e


def error(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(3)


def build(builds):
    for b in builds:
        p = subprocess.run(BUILDS[b][0], cwd=HARNESS, env=env_of(b), capture_output=True, text=True)
        if p.returncode != 0:
            error(f"the {b} build failed:\n{p.stdout[-2000:]}\n{p.stderr[-6000:]}")


def command(b, args):
    if b == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--", *args]
    return [os.path.join(TARGET, BUILDS[b][2]), *args]


def limits(b):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if b in ("dev", "release", "cost"):
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    return f


def cpu_of(pid):
    """CPU seconds used by a process and its children."""
    tick = os.sysconf("SC_CLK_TCK")
    total = 0.0
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        total += (int(f[11]) + int(f[12])) / tick
    except (OSError, IndexError, ValueError):
        pass
    return total


def merge(into, counters):
    for k, v in counters.items():
        old = into.get(k, 0)
        into[k] = max(old, v) if k.startswith("largest") else old + v


class Worker:
    """One process, which runs one episode after the other."""

    def __init__(self, b, prop, tier, seed, first, step, count, secs):
        self.b, self.prop, self.tier, self.seed = b, prop, tier, seed
        self.first, self.step, self.count = first, step, count
        self.evaluations, self.hashes, self.counters = 0, set(), {}
        self.samples, self.violations, self.problem = [], [], None
        self.ended = False
        self.hung = self.late = False
        self.deadline = time.time() + secs
        self.slowest = 0.0

    def run(self):
        first, count = self.first, self.count
        while count > 0:
            self.current, self.done = None, 0
            self.proc_run(first, count)
            if self.ended or self.problem:
                return
            # It died in the middle of an episode: go on with the next one.
            first, count = self.current + self.step, count - self.done
            if len(self.violations) >= MAX_VIOLATIONS or time.time() >= self.deadline:
                return

    def proc_run(self, first, count):
        secs = max(1, int(self.deadline - time.time()))
        args = ["worker", self.prop, self.tier, str(self.seed), str(first), str(self.step), str(count), str(secs)]
        p = subprocess.Popen(command(self.b, args), cwd=HARNESS, env=env_of(self.b), stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits(self.b),
                             errors="replace")
        err = []
        t = threading.Thread(target=lambda: err.extend(p.stderr.read().splitlines()[-200:]), daemon=True)
        t.start()
        self.mark = cpu_of(p.pid)
        stop = threading.Event()
        w = threading.Thread(target=self.watch, args=(p, stop), daemon=True)
        w.start()
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            now = cpu_of(p.pid)
            self.slowest = max(self.slowest, now - self.mark)
            if d["t"] == "start":
                self.current, self.done = d["idx"], self.done + 1
                self.mark = now
            elif d["t"] == "sample":
                d.pop("t")
                d["build"] = self.b
                self.samples.append(d)
            elif d["t"] == "violation":
                self.violations.append((d["idx"], f"{'/'.join(d['oracles'])}: {d['msg']}"))
            elif d["t"] == "end":
                self.ended = True
                self.evaluations += d["evaluations"]
                self.hashes |= set(d["hashes"])
                merge(self.counters, d["counters"])
        rc = p.wait()
        stop.set()
        t.join(5)
        if self.ended and rc == 0:
            return
        self.ended = False
        text = "\n".join(err)
        if self.late and self.done > 1:
            self.ended = True
            self.evaluations += self.done - 1
            self.counters["episodes_cut_short"] = 1
            return
        if self.current is None:
            self.problem = f"a {self.b} worker ended with {rc} before its first episode:\n{text[-3000:]}"
            return
        self.evaluations += self.done
        what = None
        if self.hung:
            what = f"the episode didn't finish within {HANG_CPU} s of CPU time"
        elif self.b == "miri":
            m = re.search(r"error: Undefined Behavior: .*", text)
            if m:
                what = m.group(0) + " " + "; ".join(re.findall(r"--> (\S+)", text)[:3])
            elif re.search(r"stack overflow|overflowed its stack", text):
                what = "stack overflow"
        elif "AddressSanitizer" in text:
            m = re.search(r"ERROR: AddressSanitizer: .*", text)
            what = m.group(0) if m else "AddressSanitizer report"
        elif -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            what = f"the process died with {signal.Signals(-rc).name}: {' '.join(text.split())[-300:]}"
        if what is None:
            self.problem = f"a {self.b} worker ended with {rc} in episode {self.current}:\n{text[-3000:]}"
        else:
            self.violations.append((self.current, what))

    def watch(self, p, stop):
        while not stop.wait(1):
            if self.b != "miri" and cpu_of(p.pid) - self.mark > HANG_CPU:
                self.hung = True
            elif self.b == "miri" and time.time() > self.deadline + 150:
                # Out of time: what it had finished still counts.
                self.late = True
            else:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            return


def plan(prop, tier):
    """(build, monitored property, how many workers, share of the episodes)"""
    if prop == "C17":
        return [("miri", "C17", 6), ("asan", "C17A", 2)]
    if prop == "C20":
        return [("cost", prop, 8)]
    return [("dev", prop, 5), ("release", prop, 3)]


def check(prop, tier, seed):
    t0 = time.time()
    pl = plan(prop, tier)
    build([b for b, _, _ in pl])
    built = time.time() - t0
    secs = int(os.environ.get("COLA_SECS", 0)) or (50 if tier == "quick" else 560)
    workers, rules = [], []
    first_build = {"C17": "asan", "C20": "cost"}.get(prop, "dev")
    for b, name, n in pl:
        out = subprocess.run(command(first_build, ["rule", name]), env=env_of(first_build), capture_output=True, text=True)
        if out.returncode != 0:
            error(f"no rule for {name}: {out.stderr}")
        r = json.loads(out.stdout.splitlines()[-1])
        if r["rule"] not in rules:
            rules.append(r["rule"])
        oracles = r["oracles"]
        total = r[tier]
        group = [w for w in pl if w[1] == name]
        m = sum(w[2] for w in group)
        off = sum(w[2] for w in group[:group.index((b, name, n))])
        for i in range(n):
            workers.append(Worker(b, name, tier, seed, off + i, m, -(-total // m), secs))
    threads = [threading.Thread(target=w.run, daemon=True) for w in workers]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    hashes, counters, samples, per_build = set(), {}, [], {}
    for w in workers:
        hashes |= {f"{w.prop}:{h}" for h in w.hashes}
        merge(counters, w.counters)
        samples += w.samples
        per_build[w.b] = per_build.get(w.b, 0) + w.evaluations
    evaluations = sum(w.evaluations for w in workers)
    violations, seen = [], set()
    for w in workers:
        for idx, msg in w.violations:
            if (w.prop, idx) not in seen:
                seen.add((w.prop, idx))
                violations.append((w, idx, msg))
    lines = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for w, idx, msg in sorted(violations, key=lambda v: v[1])[:MAX_VIOLATIONS]:
        path = os.path.join(VERIF, "replays", f"{prop}-{tier}-{seed}-{w.b}-{idx}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "monitor": w.prop, "build": w.b, "tier": tier, "seed": seed, "episode": idx,
                       "violation": msg, "how": f"python3 {VERIF}/check.py --replay {path}"}, f, indent=1)
        lines.append((f"VIOLATION property={prop} replay={path}", f"  episode {idx} of the {w.b} build: {msg[:1500]}"))
    samples.sort(key=lambda s: s["idx"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " ".join(rules),
            "samples": samples[:6],
            "oracles": oracles,
            "observed": {k: counters[k] for k in sorted(counters)},
            "episodes_per_build": per_build,
            "slowest_episode_cpu_s": round(max([w.slowest for w in workers if w.b != "miri"] or [0]), 1),
            "build_s": round(built, 1),
        },
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violation_details"] = [
            {"episode": i, "build": w.b, "what": m[:1500]} for w, i, m in violations[:20]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {evaluations} episodes, {len(hashes)} distinct and non-trivial, "
          f"{len(violations)} violations, {ev['wall_s']} s", flush=True)
    for line, detail in lines:
        print(line)
        print(detail, flush=True)
    if lines:
        return 1
    for w in workers:
        if w.problem:
            error(w.problem)
    if evaluations == 0 or not hashes:
        error("nothing was observed")
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    build([d["build"]])
    args = ["replay", d["monitor"], d["tier"], str(d["seed"]), str(d["episode"])]
    return subprocess.run(command(d["build"], args), cwd=HARNESS, env=env_of(d["build"])).returncode


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay")
    a.add_argument("--setup", action="store_true")
    a = a.parse_args()
    if a.setup:
        build(["dev", "release", "cost", "asan", "miri"])
        return 0
    if a.replay:
        return replay(a.replay)
    return check(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
