#!/usr/bin/env python3
"""Decide one property: build its proof harnesses against /repo's working tree and let Kani
discharge every obligation. Usage: check.py C02 [--keep]

exit 0: every obligation was discharged; exit 1: an obligation failed (VIOLATION line);
exit 2: the check could not decide (build error, time limit, unsupported construct).
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import tomllib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
START = time.time()
LIMIT = {"quick": 840, "thorough": 3 * 3600}.get(TIER, 840)

UNDECIDED = (
    "unwinding assertion",
    "recursion unwinding assertion",
    "is not currently supported by Kani",
    "call to foreign",
    "unsupported construct",
)


class Undecided(Exception):
    pass


def left():
    return LIMIT - (time.time() - START)


def run(cmd, cwd, env, limit, log):
    """Run a command in its own process group, all of it ended at the limit."""
    with open(log, "wb") as out:
        p = subprocess.Popen(
            cmd, cwd=cwd, env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True
        )
        try:
            return p.wait(timeout=max(1, limit))
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def tail(path, n=60):
    with open(path, errors="replace") as f:
        return "\n".join(f.read().splitlines()[-n:])


class Job:
    """One harness crate with one set of features."""

    def __init__(self, prop, spec, scratch, index):
        self.prop, self.spec, self.scratch = prop, spec, scratch
        self.dir = os.path.join(scratch, f"job{index}", "crate")
        self.target = os.path.join(scratch, f"job{index}", "target")
        self.json = os.path.join(scratch, f"job{index}", "out.json")
        self.log = os.path.join(scratch, f"job{index}", "kani.log")
        self.name = spec["crate"]

    def prepare(self):
        shutil.copytree(
            os.path.join(VERIF, "proofs", self.name),
            self.dir,
            ignore=shutil.ignore_patterns("target"),
        )
        for f in ("Cargo.toml",):
            p = os.path.join(self.dir, f)
            text = open(p).read().replace("/repo/", REPO + "/").replace("@VERIF@", VERIF)
            open(p, "w").write(text)
        self.features = list(self.spec["features"])
        if TIER != "quick":
            self.features += self.spec.get("thorough_features", [])
        # Contract stand-ins for private functions are only used where the function still exists
        for feature, (path, pattern) in self.spec.get("stubs", {}).items():
            try:
                text = open(os.path.join(REPO, path)).read()
            except OSError:
                text = ""
            if re.search(pattern, text):
                self.features.append(feature)
        pre = self.spec.get("generate")
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_REPO=REPO, CARGO_TERM_COLOR="never")
        if pre:
            log = self.log + ".gen"
            rc = run(
                ["bash", os.path.join(self.dir, pre), REPO, self.dir, self.target + "-gen"],
                self.dir, self.env, min(left() - 60, 600), log,
            )
            shutil.rmtree(self.target + "-gen", ignore_errors=True)
            if rc == 10 and self.prop in ("C13", "C14"):
                # The generator of the code under proof reports what it could not do
                return [dict(harness="generate", what=tail(log), kind="generation")]
            if rc != 0:
                raise Undecided(f"{pre} failed ({rc}):\n{tail(log)}")
        return []

    def command(self, extra):
        return (
            ["cargo", "kani", "--target-dir", self.target, "--output-format", "terse"]
            + ["-Z", "stubbing", "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "loop-contracts"]
            + ["--features", ",".join(self.features)]
            + self.spec.get("args", []) + extra
        )

    def verify(self):
        threads = str(self.spec.get("threads", 14))
        cmd = self.command(
            ["--no-assertion-reach-checks", "-j", threads, "--export-json", self.json]
            + [a for h in self.harness_filter() for a in ("--harness", h)]
        )
        self.cmd = " ".join(cmd[:2] + cmd[4:]).replace(self.json, "out.json")
        rc = run(cmd, self.dir, self.env, left() - 20, self.log)
        if rc is None:
            raise Undecided(f"time limit: kani was stopped\n{tail(self.log, 20)}")
        if not os.path.exists(self.json):
            raise Undecided(f"kani gave no result (exit {rc}):\n{errors(self.log)}")
        with open(self.json) as f:
            return json.load(f)

    def harness_filter(self):
        """Parts of names: the quick tier leaves out what `quick` does not name."""
        return self.spec.get("quick", []) if TIER == "quick" else []


def errors(path):
    text = open(path, errors="replace").read()
    found = re.findall(r"^error.*?(?=^\S|\Z)", text, re.S | re.M)
    return "\n".join(e[:1500] for e in found[:6]) or tail(path)


def source_name(check):
    loc = check.get("location") or {}
    return f"{loc.get('file', '?')}:{loc.get('line', '?')}"


def judge(job, data, state):
    """Sort the results of one Kani run into discharged and failed obligations."""
    failed, undecided = [], []
    stats = {p["harness_id"]: p["property_details"] for p in data.get("property_details", [])}
    results = data["verification_results"]["results"]
    for c in data.get("cbmc", []):
        s = c.get("cbmc_stats") or {}
        state["solver_s"] += s.get("runtime_decision_procedure_s") or 0
        state["symex_s"] += s.get("runtime_symex_s") or 0
        state["vccs"] += s.get("vccs_generated") or 0
        solver = (c.get("configuration") or {}).get("solver")
        if solver:
            state["solvers"].add(solver)
    seen = set()
    for r in results:
        h = r["harness_id"]
        seen.add(h)
        checks = r.get("checks") or []
        functions = {c.get("function") for c in checks if c.get("function")}
        state["functions"] |= {f for f in functions if f.startswith(("planus", "<planus", "array_init", "gen::", "<gen"))}
        assertions = [c for c in checks if c.get("category") != "cover"]
        covers = [c for c in checks if c.get("category") == "cover"]
        d = stats.get(h, {})
        entry = dict(
            harness=h, status=r["status"], obligations=len(assertions), covers=len(covers),
            seconds=round(r.get("duration_ms", 0) / 1000, 1),
        )
        state["harnesses"].append(entry)
        state["obligations"] += len(assertions)
        bad = [c for c in assertions if c["status"] not in ("Success", "Unreachable")]
        if "panics_" in h:
            # The obligation is that the panic is reached on every path
            if r["status"] == "Success":
                bad = []
            elif assertions and not any(c["status"] == "Failure" for c in bad):
                failed.append(dict(harness=h, what="a panic that must happen does not", where="", function=h, kind="panic"))
                continue
        state["discharged"] += len(assertions) - len(bad)
        state["covers"] += sum(c["status"] in ("Satisfied", "Covered") for c in covers)
        real = [c for c in bad if c["status"] == "Failure" and not any(u in c["description"] for u in UNDECIDED)]
        for c in real:
            failed.append(dict(harness=h, what=c["description"], where=source_name(c), function=c.get("function"), kind="obligation"))
        if real:
            continue
        for c in covers:
            if c["status"] not in ("Satisfied", "Covered", "Undetermined") and not bad:
                failed.append(dict(harness=h, what="unreachable: " + c["description"], where=source_name(c), function=c.get("function"), kind="cover"))
        if bad:
            undecided.append(f"{h}: " + "; ".join(f"{c['status']}: {c['description']} ({source_name(c)})" for c in bad[:4]))
        elif not assertions:
            undecided.append(f"{h}: no obligations ({r['status']}), out of time or memory")
        elif r["status"] != "Success" and not failed:
            undecided.append(f"{h}: {r['status']}")
    want = set(expected(job))
    missing = sorted(w for w in want if w not in seen)
    if missing:
        undecided.append("no result for " + ", ".join(missing))
    return failed, undecided


def expected(job):
    """Every harness the proof must have run, from the list committed next to it."""
    hs = []
    for f in job.spec["features"]:
        p = os.path.join(VERIF, "proofs", job.name, "harnesses", f + ".txt")
        if os.path.exists(p):
            hs += [l.split()[0] for l in open(p) if l.strip() and not l.startswith("#")]
    only = job.harness_filter()
    return [h for h in hs if not only or any(o in h for o in only)]


def replay(job, failure, path):
    """Look for a concrete failing input on small buffers, and run the real code on it."""
    if not job.spec.get("small") or left() < 120 or failure["kind"] != "obligation":
        return None
    out = os.path.join(job.scratch, "replay")
    d = os.path.join(out, "crate")
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(job.dir, d)
    feats = [f for f in job.features if not f.startswith("stub_")] + ["small"]
    base = ["cargo", "kani"]
    z = ["-Z", "stubbing", "-Z", "concrete-playback", "-Z", "unstable-options"]
    log = os.path.join(out, "log")
    cmd = base + ["--target-dir", os.path.join(out, "t"), "--features", ",".join(feats)] + z + [
        "--concrete-playback", "inplace", "--output-format", "terse", "--exact",
        "--harness", failure["harness"], "--no-assertion-reach-checks",
    ]
    env = dict(job.env)
    rc = run(cmd, d, env, min(left() - 60, 300), log)
    text = open(log, errors="replace").read()
    names = re.findall(r"- (kani_concrete_playback_\w+)", text) or re.findall(r"fn (kani_concrete_playback_\w+)", text)
    tests = ""
    for root, _, files in os.walk(os.path.join(d, "src")):
        for f in files:
            s = open(os.path.join(root, f)).read()
            for m in re.finditer(r"#\[test\]\s*fn (kani_concrete_playback_\w+)\(\) \{.*?\n\s*\}\n", s, re.S):
                tests += m.group(0) + "\n"
                names.append(m.group(1))
    if not names:
        return dict(found=False, detail="no failing input on small buffers:\n" + tail(log, 20))
    log2 = os.path.join(out, "log2")
    cmd = base + ["playback", "-Z", "concrete-playback", "--features", ",".join(feats), "--", "kani_concrete_playback"]
    env["CARGO_TARGET_DIR"] = os.path.join(out, "p")
    rc = run(cmd, d, env, min(left() - 30, 200), log2)
    text = open(log2, errors="replace").read()
    hit = re.search(r"test result: FAILED", text) or re.search(r"panicked at", text)
    return dict(found=bool(hit), detail=tests + "\n" + tail(log2, 40), cmd=" ".join(cmd))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) obligation=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), what=m.group(3), text=m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    keep = "--keep" in sys.argv
    with open(os.path.join(VERIF, "props.toml"), "rb") as f:
        table = tomllib.load(f)
    spec = table[prop]
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    state = dict(solver_s=0.0, symex_s=0.0, vccs=0, solvers=set(), functions=set(),
                 harnesses=[], obligations=0, discharged=0, covers=0)
    failed, undecided, cmds, jobs = [], [], [], []
    try:
        for i, js in enumerate(spec["jobs"]):
            job = Job(prop, js, scratch, i)
            os.makedirs(os.path.join(scratch, f"job{i}"))
            try:
                failed += [dict(f, job=job) for f in job.prepare()]
                if failed:
                    break
                f, u = judge(job, job.verify(), state)
                failed += [dict(x, job=job) for x in f]
                undecided += u
                cmds.append(job.cmd)
            except Undecided as e:
                undecided.append(str(e))
        known = known_findings(prop)
        new, old = [], []
        for f in failed:
            k = next((k for k in known if k["harness"] == f["harness"] and k["what"] in f["what"]), None)
            (old if k else new).append((f, k))
        for text in sorted({k["text"] for _, k in old}):
            print(f"KNOWN-FINDING: property={prop} {text}")
        path = None
        if new:
            path, confirmed = write_replay(prop, [f for f, _ in new], undecided)
        evidence(prop, spec, state, undecided, cmds, len(new), len(old))
        if new:
            for f, _ in new[:8]:
                print(f"FAILED {f['harness']}: {f['what']} [{f.get('where', '')}]")
            print(f"VIOLATION property={prop} replay={path}" + ("" if confirmed else " no-failing-input-found"))
            return 1
        if undecided or not state["obligations"]:
            print(f"UNDECIDED property={prop}")
            for u in undecided:
                print(u)
            return 2
        print(f"OK property={prop}: {state['discharged']} of {state['obligations']} obligations discharged "
              f"in {len(state['harnesses'])} harnesses, {state['covers']} covers satisfied, {time.time() - START:.0f} s")
        return 0
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def write_replay(prop, failures, undecided):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.txt")
    r = None
    for f in failures[:2]:
        try:
            r = replay(f["job"], f, path)
        except Exception as e:
            r = dict(found=False, detail=f"replay failed: {e}")
        if r and r["found"]:
            break
    with open(path, "w") as out:
        out.write(f"property {prop}: failed obligations\n\n")
        for f in failures:
            out.write(f"harness {f['harness']}\n  obligation: {f['what']}\n  at {f.get('where')} in {f.get('function')}\n")
        out.write("\n")
        if r:
            out.write(("failing input, run on the real code:\n" if r["found"] else "search for a failing input:\n") + r["detail"] + "\n")
        job = failures[0]["job"]
        if os.path.exists(job.log):
            out.write("\nverifier output:\n" + "\n".join(
                l for l in open(job.log, errors="replace").read().splitlines() if "Failed Checks" in l or "File:" in l or "VERIFICATION" in l) + "\n")
        for u in undecided:
            out.write("undecided: " + u + "\n")
    return path, bool(r and r["found"])


def evidence(prop, spec, state, undecided, cmds, violations, known):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    level = spec.get("level", "proof")
    bounded = spec.get("bounded", [])
    is_bounded = lambda h: any(b in h for b in bounded)
    coverage = dict(
        obligations=state["obligations"],
        discharged=state["discharged"],
        checker_cmd="; ".join(cmds) or "cargo kani",
        trusted_base=spec.get("trusted", []) + COMMON_TRUST,
        harnesses=state["harnesses"],
        proved_harnesses=sum(not is_bounded(h["harness"]) for h in state["harnesses"]),
        bounded_harnesses=[h["harness"] for h in state["harnesses"] if is_bounded(h["harness"])],
        covers_satisfied=state["covers"],
        functions_under_contract=sorted(state["functions"]),
        back_end="Kani 0.68 / CBMC 6.11, SAT solver " + ", ".join(sorted(state["solvers"])),
        solver_seconds=round(state["solver_s"], 1),
        symbolic_execution_seconds=round(state["symex_s"], 1),
        verification_conditions=state["vccs"],
        known_findings=known,
        undecided=undecided,
    )
    if level == "translation_validation":
        coverage["programs"] = spec["programs"]
        coverage["disagreements_checked"] = state["discharged"]
        coverage["samples"] = [h["harness"] for h in state["harnesses"]][:10]
    e = dict(
        property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
        coverage=coverage, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - START, 1),
        violations=violations,
    )
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1)


COMMON_TRUST = [
    "Kani's translation of MIR to CBMC's goto programs, CBMC and the SAT solver",
    "rustc's front end, and Kani's models of allocation and compiler intrinsics",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Undecided as e:
        print(f"UNDECIDED property={sys.argv[1]}\n{e}")
        sys.exit(2)
