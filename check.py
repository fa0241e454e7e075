#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   decide one property on /repo's working tree
   check.py build                   build every harness binary (setup)
   check.py replay PROP FILE        run one replay file

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed."""
import array, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
BINS = {}
for _b, _ps in {
    "ord": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C31",
    "stk": "C16 C17",
    "bp": "C18 C19 C20 C21 C22 C33",
    "lsm": "C23 C24 C25 C26 C27 C28 C29 C30 C32",
}.items():
    for _p in _ps.split():
        BINS[_p] = _b
WORKSPACE = {"ord": "harness", "bp": "harness", "lsm": "harness", "stk": "harness"}
SHARDS = 8
WATCHDOG = {"quick": 600, "thorough": 6 * 3600}
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGTRAP, signal.SIGFPE}
ONE_S = 240


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def build_env():
    out = subprocess.run(["bash", "-c", ". %s/env.sh; env -0" % HERE], stdout=subprocess.PIPE, check=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env["RUSTC_WRAPPER"] = os.path.join(HERE, "harness", "rustc-wrap.sh")
    return env


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def build(binname):
    ws = os.path.join(HERE, WORKSPACE[binname])
    target = os.path.join(ws, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".tree." + binname)
    now = tree_hash()
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            # never trust time stamps alone: make cargo look at the library again
            fp = os.path.join(target, TRIPLE, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("extended-collections-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--target", TRIPLE, "-p", binname],
            cwd=ws, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:])
            die("the harness does not build against /repo")
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(target, TRIPLE, "debug", binname)


def run_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN", "RUST"))}
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=86:abort_on_error=0:quarantine_size_mb=48:malloc_context_size=8:"
                           "detect_stack_use_after_return=0:handle_abort=0:print_summary=1:symbolize=0:detect_odr_violation=0")
    env["VERIF_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    return env


def verdict(rc, err):
    """'ok', 'fail' or 'error' for the exit status of a worker or single run, with words."""
    if rc == 0:
        return "ok", ""
    if rc == 1:
        return "fail", ""
    if rc == 77:
        return "fail", "does not terminate: step budget exceeded"
    if rc == 78:
        return "fail", "memory budget exceeded"
    if rc == 86:
        m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
        return "fail", "AddressSanitizer: " + (m.group(1)[:160] if m else "?")
    if rc < 0 and -rc in CRASH:
        last = [x for x in err.strip().splitlines() if x.strip()][-1:] or [""]
        m = re.search(r"AddressSanitizer[^\n]*", err)
        return "fail", "killed by %s %s" % (signal.Signals(-rc).name, (m.group(0) if m else last[0])[:200])
    return "error", "exit status %s: %s" % (rc, err[-400:])


class One:
    def __init__(self, exe, prop, scratch):
        self.exe, self.prop, self.scratch, self.runs = exe, prop, scratch, 0

    def run(self, text):
        """(verdict, message) of one case in a fresh process."""
        self.runs += 1
        case = os.path.join(self.scratch, "case")
        out = os.path.join(self.scratch, "msg")
        for p in (out,):
            if os.path.exists(p):
                os.unlink(p)
        with open(case, "w") as f:
            f.write(text)
        work = os.path.join(self.scratch, "w")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        try:
            r = subprocess.run([self.exe, "one", self.prop, case, out], env=run_env(work), stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=ONE_S)
            rc, err = r.returncode, r.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "error", "no answer within %d s" % ONE_S
        finally:
            shutil.rmtree(work, ignore_errors=True)
        v, msg = verdict(rc, err)
        if os.path.exists(out):
            msg = (open(out, errors="replace").read() + " " + msg).strip()
        return v, msg


def parse(text):
    target, cfg, ops = "", [], []
    for line in text.splitlines():
        if line == "end":
            break
        if line.startswith("#") or not line.strip():
            continue
        if line.startswith("target"):
            target = line.split(None, 1)[1]
        elif line.startswith("cfg"):
            cfg = [int(x) for x in line.split()[1:]]
        else:
            ops.append([int(x) for x in line.split()])
    return target, cfg, ops


def render(target, cfg, ops):
    return "target %s\ncfg%s\n%send\n" % (
        target, "".join(" %d" % c for c in cfg), "".join("%d %d %d %d\n" % tuple(o) for o in ops))


def shrink(one, text, budget_runs=700, budget_s=150):
    t0 = time.time()
    target, cfg, ops = parse(text)
    start = one.runs

    def bad(cfg, ops):
        if one.runs - start > budget_runs or time.time() - t0 > budget_s:
            return False
        return one.run(render(target, cfg, ops))[0] == "fail"

    # first cut the tail, then remove chunks
    lo, hi = 0, len(ops)
    while lo < hi:
        mid = (lo + hi) // 2
        if bad(cfg, ops[:mid]):
            hi = mid
        else:
            lo = mid + 1
        if hi - lo <= 0:
            break
    if hi < len(ops) and bad(cfg, ops[:hi]):
        ops = ops[:hi]
    chunk = max(1, len(ops) // 2)
    while True:
        i, changed = 0, False
        while i < len(ops):
            cand = ops[:i] + ops[i + chunk:]
            if bad(cfg, cand):
                ops, changed = cand, True
            else:
                i += chunk
        if chunk == 1:
            if not changed or len(ops) > 60:
                break
        else:
            chunk = max(1, chunk // 2)
    # smaller numbers
    for rnd in range(2):
        for where in range(len(cfg)):
            for v in (0, 1, 2, 3, cfg[where] // 2, cfg[where] - 1):
                if 0 <= v < cfg[where]:
                    c2 = cfg[:where] + [v] + cfg[where + 1:]
                    if bad(c2, ops):
                        cfg = c2
                        break
        for i in range(min(len(ops), 40)):
            for f in (3, 2, 1):
                old = ops[i][f]
                for v in (0, 1, 2, old // 2, old - 1):
                    if 0 <= v < old:
                        o2 = [list(o) for o in ops]
                        o2[i][f] = v
                        if bad(cfg, o2):
                            ops = o2
                            break
    return render(target, cfg, ops)


def known_findings():
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def report(prop, one, text, note, tier, known):
    v, msg = one.run(text)
    # what threads do is not wholly determined by a case: try again
    for _ in range(12 if BINS[prop] in ("lsm", "stk") else 2):
        if v == "fail":
            break
        v, msg = one.run(text)
    if v != "fail":
        return None
    small = shrink(one, text)
    v, msg2 = one.run(small)
    if v != "fail":
        small, msg2 = text, msg
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = "replays/%s-%s.case" % (prop, hashlib.sha256(small.encode()).hexdigest()[:12])
    with open(os.path.join(HERE, name), "w") as f:
        f.write(small)
        f.write("# property %s\n# %s\n# found as: %s\n# run: python3 %s/check.py replay %s <this file>\n"
                % (prop, msg2.replace("\n", " ")[:2000], note[:300].replace("\n", " "), HERE, prop))
    print("failing case (%s): %s" % (name, msg2[:1500]))
    print(small if len(small) < 3000 else small[:3000] + "...")
    for k in known:
        if k["property"] == prop and re.search(k["match"], msg2) and re.search(k.get("case", ""), small):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            return "known"
    print("VIOLATION property=%s replay=%s" % (prop, os.path.join(HERE, name)), flush=True)
    return "new"


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    exe = build(BINS[prop])
    tbuild = time.time() - t0
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=base)
    procs = []

    def stop(*_):
        for p, _f in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    def on_term(*_):
        stop()
        os._exit(2)
    signal.signal(signal.SIGTERM, on_term)
    try:
        return run_check(prop, tier, seed, scale, exe, scratch, procs, t0, tbuild)
    finally:
        stop()


def run_check(prop, tier, seed, scale, exe, scratch, procs, t0, tbuild):
    known = known_findings()
    one_dir = os.path.join(scratch, "one")
    os.makedirs(one_dir)
    one = One(exe, prop, one_dir)
    status, violations, regress = 0, 0, 0
    # saved minimal cases of defects found earlier
    rdir = os.path.join(HERE, "regress", prop)
    for f in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        if not f.endswith(".case"):
            continue
        text = open(os.path.join(rdir, f)).read()
        v, msg = one.run(text)
        regress += 1
        if v == "error":
            die("regression case %s: %s" % (f, msg))
        if v == "fail":
            if report(prop, one, text, "saved case " + f, tier, known) == "new":
                violations += 1
                status = 1
                break
    info = subprocess.run([exe, "list"], stdout=subprocess.PIPE, check=True).stdout.decode()
    rule = next(l.split("\t", 1)[1] for l in info.splitlines() if l.startswith("PROP %s\t" % prop))
    fails, errors = [], []
    if status == 0:
        for s in range(SHARDS):
            w = os.path.join(scratch, "w%d" % s)
            os.makedirs(w)
            ef = open(os.path.join(scratch, "err.%d" % s), "wb")
            p = subprocess.Popen([exe, "worker", prop, tier, str(seed), str(s), str(SHARDS), scratch, str(scale)],
                                 env=run_env(w), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef)
            procs.append((p, ef))
        deadline = time.time() + WATCHDOG[tier]
        stopping = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.05)
            if time.time() > deadline:
                for p, _ in procs:
                    if p.poll() is None:
                        p.kill()
                errors.append("watchdog: no end within %d s" % WATCHDOG[tier])
                break
            if stopping is None and any(p.poll() not in (None, 0) for p, _ in procs):
                stopping = time.time() + 20  # others may fail on a smaller case meanwhile
            if stopping and time.time() > stopping:
                for p, _ in procs:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
                break
        for s, (p, ef) in enumerate(procs):
            p.wait()
            ef.close()
            rc = p.returncode
            if rc == -signal.SIGKILL and (stopping or errors):
                continue
            err = open(os.path.join(scratch, "err.%d" % s), errors="replace").read()
            v, msg = verdict(rc, err)
            if v == "fail":
                src = "fail.%d" % s if rc == 1 else "status.%d" % s
                text = open(os.path.join(scratch, src), errors="replace").read()
                text = text[:text.index("\nend\n") + 5] if "\nend\n" in text else text
                if rc == 1:
                    out = open(os.path.join(scratch, "out.%d" % s)).read()
                    msg = next((l for l in out.splitlines() if l.startswith("FAIL")), msg)
                fails.append((len(text), s, text, msg))
            elif v == "error":
                errors.append("shard %d: %s" % (s, msg))
    fails.sort()
    confirmed = False
    for n, s, text, msg in fails:
        r = report(prop, one, text, msg, tier, known)
        if r == "new":
            violations += 1
            status = 1
        if r:
            confirmed = True
            break
    if fails and not confirmed:
        # a failure that needs the cases before it: reproduce the whole shard
        n, s, text, msg = fails[0]
        d = os.path.join(scratch, "again")
        os.makedirs(d)
        ef = open(os.path.join(d, "err"), "wb")
        p = subprocess.run([exe, "worker", prop, tier, str(seed), str(s), str(SHARDS), d, str(scale)],
                           env=run_env(d), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef)
        v, msg2 = verdict(p.returncode, open(os.path.join(d, "err"), errors="replace").read())
        if v == "fail":
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            name = os.path.join(HERE, "replays", "%s-shard%d-seed%d.case" % (prop, s, seed))
            with open(name, "w") as f:
                f.write(text + "# fails only after the earlier cases of its shard: run\n# %s worker %s %s %d %d %d DIR %s\n# %s\n"
                        % (exe, prop, tier, seed, s, SHARDS, scale, msg))
            print("failing shard:", msg, msg2)
            print("VIOLATION property=%s replay=%s" % (prop, name), flush=True)
            status, violations = 1, violations + 1
        elif v == "ok" and msg.startswith("does not terminate") and BINS[prop] not in ("lsm", "stk"):
            # the time limit of a case, passed by a machine that stood still: the same cases end when run again
            print("a case took too long once and not when its shard was run again:", msg)
        else:
            # seen against the real code, but it depends on the timing of threads or on addresses
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            name = os.path.join(HERE, "replays", "%s-shard%d-seed%d.case" % (prop, s, seed))
            with open(name, "w") as f:
                f.write(text + "# seen once, depends on timing: %s\n" % msg.replace("\n", " ")[:2000])
            print("failing case, seen once:", msg)
            print("VIOLATION property=%s replay=%s" % (prop, name), flush=True)
            status, violations = 1, violations + 1
    # evidence
    labels, ran, samples, uniq, edges = {}, {}, [], set(), 0
    for s in range(SHARDS):
        p = os.path.join(scratch, "out.%d" % s)
        if not os.path.exists(p):
            continue
        for l in open(p):
            w = l.rstrip("\n").split(" ")
            if w[0] == "RAN":
                a = ran.setdefault(w[1], [0, 0, 0, 0, 0])
                for i in range(5):
                    a[i] += int(w[2 + i])
            elif w[0] == "LABEL":
                t, k, n = l[6:].rstrip("\n").split("\t")
                labels["%s: %s" % (t, k)] = labels.get("%s: %s" % (t, k), 0) + int(n)
            elif w[0] == "SAMPLE":
                samples.append(l[7:].strip()[:1500])
            elif w[0] == "EDGES":
                edges = int(w[1])
        a = array.array("Q")
        hp = os.path.join(scratch, "hashes.%d" % s)
        with open(hp, "rb") as f:
            a.frombytes(f.read())
        uniq.update(a)
    total = sum(a[0] for a in ran.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(uniq),
            "rule": "cases generated from VERIF_SEED by the targets listed; " + rule,
            "samples": samples[:4] or ["(no case finished)"],
            "targets": {t: {"cases": a[0], "nontrivial": a[1], "made_by_mutating_a_case_that_reached_new_code": a[2],
                            "operations": a[4]} for t, a in ran.items()},
            "classes": labels,
            "saved_cases_replayed": regress,
            "instrumented_edges": edges,
        },
        "assumptions": [],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if status == 0 and errors:
        die("; ".join(errors))
    if status == 0:
        print("%s held: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s"
              % (prop, total, len(uniq), tbuild, time.time() - t0))
    return status


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "build":
        for b in sorted({b for b in BINS.values()}):
            if os.path.isdir(os.path.join(HERE, WORKSPACE[b], b)):
                build(b)
        print("built")
        return 0
    if sys.argv[1] == "replay":
        prop = sys.argv[2]
        exe = build(BINS[prop])
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        scratch = tempfile.mkdtemp(prefix="vp-replay-", dir=base)
        try:
            text = open(sys.argv[3]).read()
            v, msg = One(exe, prop, scratch).run(text)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print(v, msg)
        if v == "fail":
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(sys.argv[3])))
        return {"ok": 0, "fail": 1}.get(v, 2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in BINS or tier not in WATCHDOG:
        die("unknown property or tier")
    return check(prop, tier)


if __name__ == "__main__":
    sys.exit(main())
