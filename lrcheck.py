"""The checks of the programs in lr/ (C28, C29, C30): each program's source,
its functions as they are, is compiled next to the monitor lr/prog_test.go.txt, with the decryption
hook on (build tag verif), and run on generated data in a scratch directory."""
import json, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROGS = ["lr", "lr_toy", "lr_minibatch", "lr_minibatch_toy"]

RULES = {
    "C28": "case = program x ring size x matrix shape (filling the slots or not) x party set x mask scale; all slots of the row sums and column sums compared with the plain sums; non-trivial when distinct by (program, rows, columns, slots, parties)",
    "C29": "case = program x generated data set x configuration (ring size, companies, iterations, batch size and count, learning rate, weights, sigmoid coefficients); every iterate which the program prints or decrypts compared with a plaintext run of the algorithm; non-trivial when distinct by (program, configuration)",
    "C30": "case = program x generated data set and configuration, its final score and verdict compared with the plaintext model; and program x generated data file, every number compared; non-trivial when distinct by (program, outcome) or (program, file shape)",
}
MINEV = {"C28": ["row-sum", "column-sum"], "C29": ["program-run", "printed-iterate", "final-model"],
         "C30": ["program-run", "verdict", "loaded", "refused"]}


def jobs(pid, tier):
    thorough = tier == "thorough"
    out = []
    if pid == "C28":
        for n in range(120 if thorough else 10):
            out += [(p, "sum", n) for p in PROGS]
        return out
    mode = "train" if pid == "C29" else "infer"
    big = 8 if thorough else 2 if pid == "C29" else 4
    small = 60 if thorough else 6
    for n in range(max(big, small)):
        for p in PROGS:
            if n < (small if "minibatch" in p else big):
                out.append((p, mode, n))
    if pid == "C30":
        for n in range(40 if thorough else 4):
            out += [(p, "data", n) for p in PROGS]
    # the slow ones first
    out.sort(key=lambda j: ("minibatch" in j[0], j[1] == "data"))
    return out


def build(prog, env, tmp, names):
    d = os.path.join(tmp, "src_" + prog)
    os.makedirs(d)
    src = os.path.join(REPO, "lr", prog + ".go")
    shutil.copy(os.path.join(VERIF, "lr", "prog_test.go.txt"), os.path.join(d, "prog_verif_test.go"))
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(d, "go.sum"))
    mod = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("module verifharness", "module lrprog").replace("=> /repo", "=> " + REPO)
    open(os.path.join(d, "go.mod"), "w").write(mod)
    out, why = os.path.join(tmp, prog + ".test"), ""
    # constants made variables so that the monitor can set them; as they are if that does not build
    for extra in ([], ["asis"]):
        p = subprocess.run([names, src] + extra, capture_output=True, text=True)
        if p.returncode != 0:
            return None, p.stderr
        n = json.loads(p.stdout)
        open(os.path.join(d, "program.go"), "w").write("//go:build go1.21\n\n" + n["src"])  # loop variables as in /repo's module
        with open(os.path.join(d, "names_verif_test.go"), "w") as f:
            f.write("package main\n\nfunc init() {\n")
            for v in n["vars"] or []:
                f.write("\tvVars[%s] = &%s\n\tvOrder = append(vOrder, %s)\n" % (json.dumps(v), v, json.dumps(v)))
            for v in n["funcs"] or []:
                f.write("\tvFuncs[%s] = %s\n" % (json.dumps(v), v))
            f.write("}\n")
        p = subprocess.run(["go", "test", "-c", "-vet=off", "-tags", "verif", "-o", out, "."], cwd=d, env=env,
                           capture_output=True, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return out, ""
        why = why or (p.stdout + p.stderr)[-3000:]
    return None, why


def main(pid, seed, tier, env, tmp, t0, deadline, case, report, evidence):
    names = os.path.join(tmp, "names")
    nd = os.path.join(tmp, "namesrc")
    shutil.copytree(os.path.join(VERIF, "lr", "names"), nd)
    open(os.path.join(nd, "go.mod"), "w").write("module names\n\ngo 1.21\n")
    p = subprocess.run(["go", "build", "-o", names, "."], cwd=nd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        print("NO-ANSWER property=%s %s" % (pid, p.stderr))
        return 2
    with ThreadPoolExecutor(4) as ex:
        built = dict(zip(PROGS, ex.map(lambda q: build(q, env, tmp, names), PROGS)))
    bad = {q: e for q, (b, e) in built.items() if b is None}
    if bad:
        for q, e in bad.items():
            print("NO-ANSWER property=%s the monitor does not build next to %s:\n%s" % (pid, q, e))
        return 2
    todo = list(enumerate(jobs(pid, tier)))
    if case is not None:
        todo = [todo[case]]
    parts, viols, problems = [], [], []

    def one(job):
        idx, (prog, mode, nth) = job
        left = deadline - time.time()
        t1 = time.time()
        if left < 5:
            return idx, None, "out of time", None
        d = os.path.join(tmp, "run%d" % idx)
        os.makedirs(d)
        e = dict(env)
        e.update(GOMEMLIMIT="4500MiB", VERIF_PROP=pid, VERIF_LR_PROG=prog, VERIF_LR_MODE=mode, VERIF_LR_NTH=str(nth), VERIF_LR_DIR=d, VERIF_LR_JOB=str(idx))
        try:
            p = subprocess.run([built[prog][0], "-test.run", "TestVerif$", "-test.timeout", "0"], cwd=d, env=e,
                               capture_output=True, text=True, errors="replace", timeout=left)
        except subprocess.TimeoutExpired:
            return idx, None, "out of time", None
        part = None
        try:
            part = json.load(open(os.path.join(d, "part.json")))
        except (OSError, ValueError):
            pass
        shutil.rmtree(d, ignore_errors=True)
        if os.environ.get("VERIF_VERBOSE"):
            print("job", idx, prog, mode, nth, "%.1fs" % (time.time() - t1), part and part["max_ratio"], flush=True)
        return idx, part, p.stdout[-3000:] + p.stderr[-5000:], p.returncode

    # the programs with the large ring need gigabytes each: four of them at a time
    def large(job):
        return "minibatch" not in job[1][0] and job[1][1] in ("train", "infer")

    with ThreadPoolExecutor(4) as ex, ThreadPoolExecutor(4) as ex2:
        for f in [(ex if large(j) else ex2).submit(one, j) for j in todo]:
            idx, part, log, rc = f.result()
            if part is None:
                if rc is None or rc in (-9, 137):
                    problems.append("job %d: %s" % (idx, "killed" if rc else log))
                else:
                    viols.append(dict(property=pid, seed=seed, tier=tier, case=idx, kind="crash",
                                      detail="%s died with status %s\n%s" % (jobs(pid, tier)[idx][0], rc, log), trace=[]))
                continue
            if part.get("missing"):
                problems.append("job %d: the program has no %s" % (idx, ", ".join(part["missing"])))
            part["rule"], part["min_events"] = RULES[pid], MINEV[pid]
            part["cases_total"] = len(todo)
            parts.append(part)
            viols += part["violations"] or []
    per = {}
    for _, (prog, mode, _n) in todo:
        per[prog + "/" + mode] = per.get(prog + "/" + mode, 0) + 1
    cases, total, missing, evals, distinct = evidence(pid, tier, seed, parts, viols, time.time() - t0, "tag verif", {"runs_per_program": per})
    if report(pid, viols):
        return 1
    for p in problems:
        print("NO-ANSWER property=%s %s" % (pid, p))
    if problems:
        return 2
    if case is None and (cases < total or missing):
        print("NO-ANSWER property=%s observed too little: %d of %d cases, events never seen: %s" % (pid, cases, total, missing))
        return 2
    print("OK property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, cases, evals, distinct, time.time() - t0))
    return 0
