#!/usr/bin/env python3
"""run.py <property id> [--case N]

Builds the harness of one property from /repo's current working tree, runs its
workload in parallel shards under the monitors, merges what they observed, and
writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: refuted.  Exit 2: no answer (could not build, or not enough was
observed)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only for trying out changes
MODE = {"C24": "race", "C25": "asan"}
LR = {"C28", "C29", "C30"}
NSHARD = 8
LIMIT = {"quick": 780, "thorough": 6 * 3600}


def goenv():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             capture_output=True, check=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode(errors="surrogateescape")
    except Exception:
        pass
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    return env


def build(mode, env, tmp):
    """Returns (binary, error text)."""
    out = os.path.join(tmp, "h.test")
    src = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    if REPO != "/repo":
        mod = os.path.join(src, "go.mod")
        text = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(text)
    cmd = ["go", "test", "-c", "-o", out]
    benv = dict(env)
    if mode == "race":
        cmd.append("-race")
    if mode == "asan":
        cmd.append("-asan")
        benv["CGO_ENABLED"] = "1"
        benv.setdefault("CC", "clang")
    p = subprocess.run(cmd + ["."], cwd=src, env=benv, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, (p.stdout + p.stderr)[-4000:]
    return out, ""


class Shard:
    def __init__(self, binary, pid, idx, n, env, tmp, case=None):
        self.idx = idx
        self.log = os.path.join(tmp, "log%d" % idx)
        self.part = os.path.join(tmp, "part%d.json" % idx)
        e = dict(env)
        e.update(VERIF_PROP=pid, VERIF_SHARD=str(idx), VERIF_NSHARD=str(n), VERIF_OUT=tmp,
                 GORACE="halt_on_error=1 exitcode=66 history_size=3",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=67")
        if case is not None:
            e["VERIF_CASE"] = str(case)
        self.f = open(self.log, "w")
        self.p = subprocess.Popen([binary, "-test.run", "TestRun$", "-test.timeout", "0"], cwd=tmp,
                                  env=e, stdout=self.f, stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def run_shards(binary, pid, idxs, n, env, tmp, deadline, case=None):
    shards = [Shard(binary, pid, i, n, env, tmp, case) for i in idxs]
    for s in shards:
        left = deadline - time.time()
        try:
            s.p.wait(timeout=max(1, left))
            s.rc = s.p.returncode
        except subprocess.TimeoutExpired:
            s.kill()
            s.rc = None
        s.f.close()
    return shards


def last_case(log):
    c = -1
    for m in re.finditer(r"^CASE (\d+)$", log, re.M):
        c = int(m.group(1))
    return c


def collect(shards, pid, seed, tier):
    parts, viols, problems = [], [], []
    for s in shards:
        log = open(s.log, errors="replace").read()
        part = None
        if os.path.exists(s.part):
            try:
                part = json.load(open(s.part))
            except ValueError:
                part = None
        if part:
            parts.append(part)
            viols += part["violations"] or []

        def add(kind, detail):
            viols.append(dict(property=pid, seed=seed, tier=tier, case=last_case(log), kind=kind,
                              detail=detail, trace=log[-3000:].splitlines()))
        if "WARNING: DATA RACE" in log:
            i = log.index("WARNING: DATA RACE")
            add("data-race", log[i:i + 6000])
        elif "ERROR: AddressSanitizer" in log:
            i = log.index("ERROR: AddressSanitizer")
            add("address-sanitizer", log[i:i + 6000])
        elif s.rc is None:
            problems.append("shard %d ran out of time at case %d" % (s.idx, last_case(log)))
        elif "HARNESS-ERROR" in log:
            problems.append("shard %d: harness error: %s" % (s.idx, log[-500:]))
        elif s.rc in (-9, 137):
            problems.append("killed")
        elif part is None or not part.get("done"):
            if not (part and part["violations"]):
                add("crash", "the process died with status %s\n%s" % (s.rc, log[:6000]))
    return parts, viols, problems


def compare_prints(pid, seed, tier, parts):
    """Fingerprints of what eight processes in step drew: 0 and 1 had the same stream of
    system randomness, the others streams of their own."""
    cases = {}
    for p in parts:
        for k, prints in (p.get("prints") or {}).items():
            cases[int(k)] = prints
    viols = []

    def bad(case, kind, detail):
        if len(viols) < 4:
            viols.append(dict(property=pid, seed=seed, tier=tier, case=case, kind=kind, detail=detail, trace=[]))
    for g in sorted({k // 8 for k in cases}):
        run = {k % 8: cases[k] for k in cases if k // 8 == g}
        if 0 in run and 1 in run:
            for name, p in run[0].items():
                q = run[1].get(name)
                if "unordered" in name:
                    continue
                if q is None or q["d"] != p["d"]:
                    bad(8 * g, "foreign-randomness", "%s does not follow from the system's randomness: "
                        "it differs between two processes given the same (%d bytes drawn)" % (name, p["b"]))
                elif 0 < p["b"] < 16:
                    bad(8 * g, "little-randomness", "%s derives from %d bytes of the system's randomness" % (name, p["b"]))
        seen = {}
        for s, prints in sorted(run.items()):
            if s == 1:
                continue
            for name, p in prints.items():
                if p["d"] in seen and "together" not in name:
                    o = seen[p["d"]]
                    bad(8 * g, "same-randomness", "%s, in process %d, is the same as %s, in process %d" % (name, s, o[1], o[0]))
                seen.setdefault(p["d"], (s, name))
    return viols


def known(pid, v):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return None
    text = v["kind"] + "\n" + v["detail"] + "\n" + "\n".join(v.get("trace") or [])
    for line in open(path):
        m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.rstrip("\n"))
        if m and m.group(1) == pid and re.search(m.group(2), text):
            return m.group(3)
    return None


def report(pid, viols):
    """Prints the findings; returns the number of violations which are not known."""
    d = os.path.join(VERIF, "replays", pid)
    new, seen = [], set()
    for v in viols:
        k = known(pid, v)
        if k is None:
            new.append(v)
        elif k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if new:
        os.makedirs(d, exist_ok=True)
    for i, v in enumerate(new[:4]):
        path = os.path.join(d, "violation%d.json" % i)
        v = dict(v)
        v["replay_cmd"] = "cd /verif && VERIF_SEED=%s VERIF_TIER=%s python3 run.py %s --case %s" % (
            v.get("seed"), v.get("tier"), pid, v.get("case"))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s (case %s): %s" % (v["kind"], v.get("case"), v["detail"][:600].replace("\n", "\n  ")))
    return len(new)


def evidence(pid, tier, seed, parts, viols, wall, mode, extra=None):
    events, ratios, states, samples = {}, {}, set(), []
    evals = cases = total = 0
    rule, minev = "", []
    for p in parts:
        for k, n in p["events"].items():
            events[k] = events.get(k, 0) + n
        for k, x in p["max_ratio"].items():
            ratios[k] = max(ratios.get(k, 0), x)
        states |= set(p["states"] or [])
        samples += (p["samples"] or [])[:1]
        evals += p["evals"]
        cases += p["cases_run"]
        total = max(total, p["cases_total"])
        rule, minev = p["rule"], p["min_events"] or []
    cov = dict(evaluations=evals, distinct_nontrivial=len(states), rule=rule, samples=samples[:6],
               cases_run=cases, cases_planned=total, events_observed=dict(sorted(events.items())),
               max_error_over_bound={k: round(x, 4) for k, x in sorted(ratios.items())},
               distinct_examples=sorted(states)[:12], build_mode=mode)
    if extra:
        cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              wall_s=round(wall, 2), violations=len(viols),
              assumptions=["the harness, its big-integer and floating-point references, the Go tool chain and the lattigo v2.3.0 library are trusted",
                           "all randomness of the code under test is derived from VERIF_SEED"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    missing = [k for k in minev if events.get(k, 0) == 0]
    return cases, total, missing, evals, len(states)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    case = None
    if "--case" in sys.argv:
        case = int(sys.argv[sys.argv.index("--case") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    env = goenv()
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    shutil.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if pid in LR:
            sys.path.insert(0, VERIF)
            import lrcheck
            return lrcheck.main(pid, seed, tier, env, tmp, t0, deadline, case, report, evidence)
        mode = MODE.get(pid, "plain")
        binary, err = build(mode, env, tmp)
        if binary is None:
            print("NO-ANSWER property=%s the harness does not build against /repo:\n%s" % (pid, err))
            return 2
        single = case is not None and pid != "C34"
        idxs = [0] if single else list(range(NSHARD))
        n = 1 if single else NSHARD
        shards = run_shards(binary, pid, idxs, n, env, tmp, deadline, case)
        parts, viols, problems = collect(shards, pid, seed, tier)
        if "killed" in problems:  # memory pressure: one shard at a time
            for s in [s for s in shards if s.rc in (-9, 137)]:
                shards.remove(s)
                shards += run_shards(binary, pid, [s.idx], n, env, tmp, deadline, case)
            parts, viols, problems = collect(shards, pid, seed, tier)
        if pid == "C34":
            viols += compare_prints(pid, seed, tier, parts)
        viols.sort(key=lambda v: v["case"])
        cases, total, missing, evals, distinct = evidence(pid, tier, seed, parts, viols, time.time() - t0, mode)
        if report(pid, viols):
            return 1
        for p in problems:
            print("NO-ANSWER property=%s %s" % (pid, p))
        if problems:
            return 2
        if case is None and (cases < total or missing):
            print("NO-ANSWER property=%s observed too little: %d of %d cases, events never seen: %s" % (pid, cases, total, missing))
            return 2
        print("OK property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, cases, evals, distinct, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
