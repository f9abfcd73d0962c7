#!/usr/bin/env python3
"""Driver of the runtime monitors: builds a monitor binary against /repo's working tree, runs its workers
(natively, under a sanitizer or under Miri), confirms what they report and writes the evidence file.

  check.py P01              decide property P01 (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py replay FILE      run the case recorded in a replay file again, traced
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS  # noqa: E402

NCPU = max(2, os.cpu_count() or 2)
TRIPLE = "x86_64-unknown-linux-gnu"
HANG_CPU = {"native": 120.0, "asan": 240.0, "tsan": 300.0, "msan": 300.0, "miri": 420.0, "miri-mac": 420.0}


def base_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_PROFILE_DEV_DEBUG", "RUST_BACKTRACE", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTFLAGS"] = "--cfg vcmon"
    return e


def is_miri(mode):
    return mode.startswith("miri")


class Inconclusive(Exception):
    pass


MODES = {}


def run_env(mode, miri_seed=0):
    e = base_env()
    if mode == "native":
        e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    elif mode == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address --cfg vcmon --cfg vcmon_san"
        e["CARGO_TARGET_DIR"] = TARGET + "/asan"
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64"
    elif mode == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread --cfg vcmon --cfg vcmon_san"
        e["CARGO_TARGET_DIR"] = TARGET + "/tsan"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
    elif mode == "msan":
        e["RUSTFLAGS"] = "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg vcmon --cfg vcmon_san"
        e["CARGO_TARGET_DIR"] = TARGET + "/msan"
        e["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:allocator_may_return_null=1"
    elif mode in ("miri", "miri-mac"):
        e["CARGO_TARGET_DIR"] = TARGET + "/miri"
        e["MIRIFLAGS"] = (
            "-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.03 "
            f"-Zmiri-seed={miri_seed}"
        )
        e["VCMON_SMALL"] = "1"
    return e


def cargo(mode, binname):
    if mode == "native":
        return ["cargo", "build", "-q", "--offline", "--locked", "--bin", binname]
    if mode == "asan":
        return ["cargo", "+nightly", "build", "-q", "--offline", "--locked", "--target", TRIPLE, "--bin", binname]
    if mode in ("tsan", "msan"):
        return ["cargo", "+nightly", "build", "-q", "-Zbuild-std", "--offline", "--target", TRIPLE, "--bin", binname]
    return miri_run(mode, binname) + ["list"]


def miri_run(mode, binname):
    # miri-mac: the same code interpreted for another target, where parking_lot uses pthread mutexes; on Linux it
    # makes futex system calls of a form that Miri rejects as soon as two threads contend for a lock
    target = ["--target", "x86_64-apple-darwin"] if mode == "miri-mac" else []
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked"] + target + ["--bin", binname, "--"]


def build(mode, binname):
    t = time.time()
    r = subprocess.run(cargo(mode, binname), cwd=HARNESS, env=run_env(mode), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [b for b in r.stdout.split("\n\n") if b.lstrip().startswith("error")]
        sys.stdout.write(("\n\n".join(errs) or r.stdout)[:8000] + "\n")
        raise Inconclusive(f"build of {binname} ({mode}) failed")
    return time.time() - t


def command(mode, binname):
    if mode == "native":
        return [f"{TARGET}/debug/{binname}"]
    if mode in ("asan", "tsan", "msan"):
        return [f"{TARGET}/{mode}/{TRIPLE}/debug/{binname}"]
    return miri_run(mode, binname)


def cpu_of(pid):
    """CPU seconds of a process and its descendants that are still there."""
    total, todo, seen = 0.0, [pid], set()
    hz = os.sysconf("SC_CLK_TCK")
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        try:
            f = open(f"/proc/{p}/stat").read().rsplit(")", 1)[1].split()
            total += (int(f[11]) + int(f[12])) / hz
            for t in os.listdir(f"/proc/{p}/task"):
                todo += [int(x) for x in open(f"/proc/{p}/task/{t}/children").read().split()]
        except (OSError, IndexError, ValueError):
            pass
    return total


class Worker:
    def __init__(self, mode, binname, n, seed, budget_ms, max_cases, only, tmp, wall):
        self.mode, self.n, self.tmp = mode, n, tmp
        self.base = f"{tmp}/{mode}{n}"
        args = ["worker", "--seed", str(seed), "--worker", str(n), "--budget-ms", str(budget_ms)]
        if max_cases:
            args += ["--max-cases", str(max_cases)]
        if only:
            args += ["--only", ",".join(only)]
        if is_miri(mode):
            args += ["--progress", "-", "--out", "-"]
        else:
            args += ["--progress", self.base + ".prog", "--out", self.base + ".json"]
        self.args = args
        self.miri_seed = (seed * 1000 + n) & 0x7FFFFFFF
        self.so, self.se = open(self.base + ".out", "wb"), open(self.base + ".err", "wb")
        self.p = subprocess.Popen(command(mode, binname) + args, cwd=HARNESS, env=run_env(mode, self.miri_seed), stdout=self.so, stderr=self.se, start_new_session=True)
        self.hung = self.expired = False
        self.deadline = time.time() + wall
        self.last, self.last_cpu = None, 0.0

    def current(self):
        """(index, case_seed, scenario) of the case under way"""
        try:
            if is_miri(self.mode):
                cs = [l for l in open(self.base + ".out", errors="replace") if l.startswith("CASE ")]
                f = cs[-1].split()[1:] if cs else None
            else:
                f = open(self.base + ".prog", errors="replace").read(100).split()
            return (int(f[0]), int(f[1]), f[2]) if f and len(f) >= 3 else None
        except (OSError, ValueError):
            return None

    def poll(self):
        if self.p.poll() is not None:
            return False
        cur = self.current()
        cpu = cpu_of(self.p.pid)
        if cur != self.last:
            self.last, self.last_cpu = cur, cpu
        elif cpu - self.last_cpu > HANG_CPU[self.mode]:
            self.hung = True
        if time.time() > self.deadline:
            self.expired = True
        if self.hung or self.expired:
            self.kill()
            return False
        return True

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            if is_miri(self.mode):
                for l in open(self.base + ".out", errors="replace"):
                    if l.startswith("RESULT "):
                        return json.loads(l[7:])
                return None
            return json.load(open(self.base + ".json"))
        except (OSError, ValueError):
            return None

    def digests(self):
        try:
            b = open(self.base + ".json.digests", "rb").read()
            return {b[i:i + 8] for i in range(0, len(b), 8)}
        except OSError:
            return set()

    def stderr(self):
        return open(self.base + ".err", errors="replace").read()[-12000:]


def solo(mode, binname, scenario, case_seed, miri_seed, repeat=1, cpu=None):
    """Runs one case alone. Returns (kind, text): held | violated | crash | hang | inconclusive"""
    cpu = cpu or HANG_CPU[mode]
    cmd = command(mode, binname) + ["replay", "--scenario", scenario, "--case-seed", str(case_seed), "--repeat", str(repeat)]
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, cwd=HARNESS, env=run_env(mode, miri_seed), stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        t0 = time.time()
        hang = wall = False
        while p.poll() is None:
            time.sleep(0.05)
            if cpu_of(p.pid) > cpu:
                hang = True
            elif time.time() - t0 > cpu * 3:
                wall = True
            if hang or wall:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        out.seek(0)
        text = out.read().decode(errors="replace")
    if hang:
        return "hang", text
    if wall:
        return "inconclusive", text
    if p.returncode == 0:
        return "held", text
    if p.returncode == 1 and "VIOLATED property=" in text:
        return "violated", text
    if is_miri(mode) and ("unsupported operation" in text or "Undefined Behavior" not in text and "data race" not in text.lower()):
        if "error: abnormal termination" in text or "deadlock" in text:
            return "crash", text
        return "inconclusive", text
    if p.returncode == -signal.SIGKILL:
        return "inconclusive", text
    return "crash", text


def summarise(text):
    """A short signature of a crash report."""
    for pat in (
        r"ERROR: AddressSanitizer: ([\w-]+)",
        r"WARNING: ThreadSanitizer: ([\w ]+)",
        r"WARNING: MemorySanitizer: ([\w-]+)",
        r"(error: Undefined Behavior: [^\n]+)",
        r"(error: [^\n]+)",
        r"(memory allocation of \d+ bytes failed)",
        r"(PANIC [^\n]+)",
        r"(thread .* panicked at [^\n]+)",
    ):
        m = re.search(pat, text)
        if m:
            s = m.group(1).strip()
            text = text[m.start():]
            frames = re.findall(r"#\d+ 0x\w+ in ([\w:<>{}$.]+).*?(/repo/src/[\w/]+\.rs:\d+)", text)
            loc = re.search(r"(/repo/src/[\w/]+\.rs:\d+)", text)
            return s + (f" ({frames[0][1]})" if frames else f" ({loc.group(1)})" if loc else "")
    return "abnormal end"


def known_findings():
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"open: property=(\w+) scenario=(\S+) sig=\"([^\"]*)\" \| (.*)", l)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def record(prop, v, i):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{prop}-{i}.json")
    json.dump(v, open(f, "w"), indent=1)
    return f


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    cfg = PROPS[prop]
    binname = prop.lower()
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"vcmon-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
    counters, per_pass, samples, violations, problems = {}, [], [], [], []
    evals = nontrivial = 0
    digests = set()
    try:
        for ps in cfg["passes"]:
            mode = ps["mode"]
            budget = ps["quick"] if tier == "quick" else ps["thorough"]
            if not budget:
                continue
            scale = float(os.environ.get("VCMON_SCALE", "1"))
            budget = int(budget * 1000 * scale)
            bt = build(mode, binname)
            nw = ps.get("workers", NCPU)
            wall = budget / 1000 * (2.0 if not is_miri(mode) else 2.5) + (240 if tier == "quick" else 900)
            ws = [Worker(mode, binname, n, seed, budget, ps.get("max_cases"), ps.get("only"), tmp, wall) for n in range(nw)]
            live = list(ws)
            while live:
                time.sleep(0.1)
                live = [w for w in live if w.poll()]
            pe = pd = 0
            pdig = set()
            crashes = []
            for w in ws:
                r = w.result()
                if r:
                    pe += r["evaluations"]
                    nontrivial += r["nontrivial"]
                    pd += r["distinct"]
                    pdig |= w.digests()
                    for k, v in r["counters"].items():
                        counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
                    for k, v in r["per_scenario"].items():
                        counters["cases." + k] = counters.get("cases." + k, 0) + v
                    if len(samples) < 3:
                        samples += r["samples"][: 3 - len(samples)]
                    for v in r["violations"]:
                        v.update(property=prop, mode=mode, seed=seed, worker=w.n, kind="monitor", miri_seed=w.miri_seed)
                        violations.append(v)
                if not r or (w.p.returncode not in (0, 1)):
                    crashes.append(w)
                cur = w.current()
                if not r and cur:
                    pe += cur[0]
            digests |= {mode.encode() + d for d in pdig}
            if not pdig and pd:  # interpreter runs report counts only
                counters["interpreted_distinct"] = counters.get("interpreted_distinct", 0) + pd
            evals += pe
            per_pass.append({"pass": mode, "only": ps.get("only"), "workers": nw, "evaluations": pe, "build_s": round(bt, 1), "budget_s": budget / 1000})
            seen_sites = set()
            for w in crashes:
                cur = w.current()
                err = w.stderr()
                if w.p.returncode == -signal.SIGKILL and not w.hung:
                    problems.append(f"{mode} worker {w.n} was ended from outside or exceeded its wall-clock watchdog")
                    continue
                if mode == "tsan" and "ThreadSanitizer" in err:
                    # a race report is its own witness
                    violations.append(dict(property=prop, mode=mode, seed=seed, worker=w.n, kind="tsan", scenario=cur[2] if cur else "?", case_seed=cur[1] if cur else 0, sig=summarise(err), msg=err[:6000], trace=[], miri_seed=0))
                    continue
                if not cur:
                    problems.append(f"{mode} worker {w.n} ended with {w.p.returncode} before its first case: {err[-800:]}")
                    continue
                if len(seen_sites) >= 2 and violations:
                    continue
                seen_sites.add(cur[2])
                kind, text = solo(mode, binname, cur[2], cur[1], w.miri_seed)
                if kind == "held" and ("AddressSanitizer" in err or "MemorySanitizer" in err):
                    kind, text = "crash", err
                if kind == "held":
                    # perhaps the damage was done by an earlier case: same worker, same seed, again
                    w2 = Worker(mode, binname, w.n, seed, budget * 3, cur[0] + 2, ps.get("only"), tmp, wall * 2)
                    while w2.poll():
                        time.sleep(0.1)
                    if w2.p.returncode not in (0, 1) and w2.p.returncode != -signal.SIGKILL:
                        kind, text = "crash", w2.stderr()
                if kind in ("crash", "violated", "hang"):
                    sig = {"hang": "does not terminate"}.get(kind) or summarise(text + "\n" + err)
                    violations.append(dict(property=prop, mode=mode, seed=seed, worker=w.n, kind=kind, scenario=cur[2], case_seed=cur[1], sig=sig, msg=(text[-5000:] or err), exit=w.p.returncode, trace=[], miri_seed=w.miri_seed))
                else:
                    problems.append(f"{mode} worker {w.n} ended with {w.p.returncode} in {cur[2]} case {cur[1]}, not reproduced: {err[-1500:]}")
            if violations:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings()
    reported, real = set(), []
    for v in violations:
        k = next((k for k in known if k[0] == prop and k[1] == v["scenario"] and k[2] == v["sig"]), None)
        if k:
            reported.add(k)
        else:
            real.append(v)
    for k in known:
        if k[0] == prop and k in reported:
            print(f"KNOWN-FINDING: property={prop} {k[3]}")
    if not real:
        for name, least in cfg.get("min", {}).items():
            have = evals if name == "evaluations" else len(digests) if name == "distinct" else counters.get(name, 0)
            if have < least:
                problems.append(f"too little observed: {name} = {have} < {least}")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(digests), "rule": cfg["rule"], "samples": samples or [{"note": "no sample recorded on this run"}],
            "observed": dict(sorted(counters.items())), "passes": per_pass,
        },
        "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(real),
    }
    if problems:
        ev["coverage"]["problems"] = problems[:10]
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {evals} executions, {len(digests)} distinct non-trivial, passes: " + ", ".join(f"{p['pass']} {p['evaluations']} (build {p['build_s']}s)" for p in per_pass) + f", {wall:.0f} s")
    if real:
        shown = set()
        for i, v in enumerate(real):
            if (v["scenario"], v["sig"]) in shown:
                continue
            shown.add((v["scenario"], v["sig"]))
            f = record(prop, v, len(shown))
            print(f"VIOLATION property={prop} replay={f}")
            print(f"  {v['mode']} {v['scenario']} case_seed={v['case_seed']}: {v['sig']}: {v['msg'][:1200]}")
            if len(shown) >= 5:
                break
        return 1
    if problems:
        for p in problems[:10]:
            print("INCONCLUSIVE:", p)
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    binname = v["property"].lower()
    build(v["mode"], binname)
    kind, text = solo(v["mode"], binname, v["scenario"], v["case_seed"], v.get("miri_seed", 0), repeat=20 if v["kind"] == "tsan" else 1)
    print(text)
    print("outcome:", kind)
    return 0 if kind == "held" else 1


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["replay"]:
            return replay(a[1])
        return check(a[0])
    except Inconclusive as e:
        print("INCONCLUSIVE:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
