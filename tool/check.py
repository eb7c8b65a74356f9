#!/usr/bin/env python3
"""Decide one property with the contracts and lemmas in /verif/kani, discharged by Kani/CBMC
against the current working tree of /repo.

exit 0  every obligation discharged
exit 1  an obligation failed; prints VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  no answer (build failure, solver limit, missing or vacuous obligation)
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = os.path.join(VERIF, "kani")
WORK = os.path.join(VERIF, ".work")
REPLAYS = os.path.join(VERIF, "replays")
FLAGS = "-A dangerous_implicit_autorefs -A warnings"
UNSTABLE = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "loop-contracts",
            "-Z", "unstable-options"]
START = time.time()
DEADLINE = {"quick": 820, "thorough": 7200}
HARNESS_TIMEOUT = {"quick": 240, "thorough": 1500}
# Categories of failed checks which say that the tool could not judge, not that the code is wrong.
TOOL_LIMIT = {"unsupported_construct", "unsupported"}
RETRY_UNWIND = [24, 72]

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPERTIES, CRATES, TRUSTED  # noqa: E402


def left(tier):
    return DEADLINE[tier] - (time.time() - START)


def env(cfg):
    e = dict(os.environ)
    e["RUSTFLAGS"] = " ".join([FLAGS] + ["--cfg " + c for c in cfg])
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def limit_memory():
    """Running out of memory is the solver's limit, and must not end other processes."""
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def scan_harnesses(crate):
    """Names and attributes of the harnesses as they stand in the committed harness sources."""
    out = {}
    src = os.path.join(KANI, crate, "src")
    for root, _, files in os.walk(src):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(root, f)).read()
            mod = os.path.relpath(os.path.join(root, f), src)[:-3].replace(os.sep, "::")
            mod = "" if mod == "lib" else mod + "::"
            if mod.startswith("contracts"):
                continue
            names = set(re.findall(r"\bi?p\d\d_\w+", re.sub(r"//.*", "", text)))
            for n in names:
                out[mod + n] = False
    return out


def expected_contracts(crate, patterns):
    """The contract harnesses that the committed sources define (names without their modules)."""
    names = set()
    src = os.path.join(KANI, crate, "src")
    for f in sorted(os.listdir(src)):
        if f.startswith("contracts"):
            names |= set(re.findall(r"\bi?p\d\d_\w+", re.sub(r"//.*", "", open(os.path.join(src, f)).read())))
    return {n for n in names if any(p in n for p in patterns)}


def harness_short(h):
    return h.split("::")[-1]


def select(pid, tier):
    """-> {(crate, contracts?): [harness...]}"""
    spec = PROPERTIES[pid]
    groups = {}
    for crate in spec["crates"]:
        for name, contract in sorted(scan_harnesses(crate).items()):
            short = harness_short(name)
            if not re.match(r"i?%s_" % pid.lower(), short):
                continue
            if short.endswith("_deep") and tier != "thorough":
                continue
            groups.setdefault((crate, contract), []).append(name)
    for crate, patterns in spec["layer"]:
        assert expected_contracts(crate, patterns)
        groups[(crate, True)] = list(patterns)
    return groups


def kani_args(crate, contract):
    if contract:
        # The write sets of contracts are arrays over all objects.
        return ["--cbmc-args", "--object-bits", "10"]
    return list(CRATES[crate].get("kani_args", []))


class Run:
    def __init__(self, crate, contract, cfg, harnesses, tier, work, unwind=None, jobs=8):
        self.crate, self.contract, self.cfg, self.harnesses, self.tier = crate, contract, cfg, harnesses, tier
        self.dir = tempfile.mkdtemp(prefix="run-", dir=work)
        self.json = os.path.join(self.dir, "out.json")
        self.log = os.path.join(self.dir, "log")
        cmd = ["cargo", "kani", "--target-dir", os.path.join(self.dir, "t")] + UNSTABLE + [
            "-j", str(jobs), "--output-format", "terse", "--export-json", self.json,
            "--harness-timeout", "%ds" % min(HARNESS_TIMEOUT[tier] // (1 + contract), max(20, int(left(tier)) - 40))]
        if not contract:
            # The contract harnesses are instantiated in nested modules: these are selected by substring.
            cmd.append("--exact")
        for h in harnesses:
            cmd += ["--harness", h]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        cmd += kani_args(crate, contract)
        self.cmd = cmd
        self.proc = subprocess.Popen(cmd, cwd=os.path.join(KANI, crate), env=env(cfg),
                                     stdout=open(self.log, "wb"), stderr=subprocess.STDOUT,
                                     start_new_session=True, preexec_fn=limit_memory)

    def wait(self):
        try:
            self.proc.wait(timeout=max(10, left(self.tier) - 15))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.proc.pid, 9)
            except ProcessLookupError:
                pass
            self.proc.wait()
        self.text = open(self.log, errors="replace").read()
        shutil.rmtree(os.path.join(self.dir, "t"), ignore_errors=True)
        self.result = None
        if os.path.exists(self.json):
            try:
                self.result = json.load(open(self.json))
            except ValueError:
                pass
        return self

    def built(self):
        return self.result is not None

    def per_harness(self):
        res = {} if self.contract else {h: None for h in self.harnesses}
        if self.result:
            for r in self.result["verification_results"]["results"]:
                res[r["harness_id"]] = r
        return res

    def stats(self):
        solver, obligations = 0.0, 0
        for c in (self.result or {}).get("cbmc", []):
            st = c.get("cbmc_stats") or {}
            solver += st.get("runtime_solver_s") or 0.0
            obligations += st.get("vccs_generated") or 0
        return solver, obligations


def judge(r):
    """-> (verdict, failed checks, note); verdict in ok | fail | unwind | limit"""
    if r is None:
        return "limit", [], "no result reported"
    checks = r.get("checks") or []
    if not checks:
        return "limit", [], "no verdict from the solver (time or memory limit)"
    failed = [c for c in checks if c["status"] == "Failure"]
    if r["status"] == "Success":
        # Whatever fails in a successful harness is the panic that a should_panic harness asks for.
        failed = []
    unsupported = [c for c in failed if c["category"] in TOOL_LIMIT]
    unwind = [c for c in failed if c["category"] == "unwind" or
              c["description"].startswith("unwinding assertion")]
    real = [c for c in failed if c not in unsupported and c not in unwind]
    if real:
        return "fail", real, ""
    if unsupported:
        return "limit", unsupported, "reaches a construct Kani does not support: " + unsupported[0]["description"]
    if unwind:
        return "unwind", unwind, ""
    if any(c["status"] == "Error" for c in checks):
        return "limit", [], "the solver gave up (memory or time limit)"
    if r["status"] != "Success":
        if any(c["status"] not in ("Success", "Unreachable", "Satisfied", "Unsatisfiable", "Uncoverable",
                                   "Unsatisfied") for c in checks):
            return "limit", [], "some obligations were not decided"
        # A harness that must panic but does not.
        return "fail", [{"description": "expected panic does not occur", "category": "should_panic",
                         "location": {"file": "", "line": ""}, "function": r["harness_id"]}], ""
    und = [c for c in checks if c["status"] in ("Undetermined", "SolverError")]
    if und:
        return "limit", und, "undetermined obligations"
    covers = [c for c in checks if c["category"] == "cover" and "COVER" in c["description"]]
    if covers and not any(c["status"] == "Satisfied" for c in covers):
        return "vacuous", covers, "no behaviour the property speaks of is reachable"
    return "ok", [], ""


def native_replay(pid, crate, contract, cfg, harness, failed, work, tier, path):
    """Ask Kani for the inputs of the counterexample and run the harness on them natively."""
    want = {c["description"].strip('"') for c in failed}
    with open(path, "a") as out:
        out.write("\n== counterexample ==\n")
        if left(tier) < 90:
            out.write("(no time left to extract it)\n")
            return False
        cmd = ["cargo", "kani", "--target-dir", os.path.join(work, "cp")] + UNSTABLE + [
            "-Z", "concrete-playback", "--concrete-playback", "print", "--exact", "--harness", harness,
            "--harness-timeout", "%ds" % min(200, int(left(tier) - 60))]
        cmd += kani_args(crate, contract)
        try:
            p = subprocess.run(cmd, cwd=os.path.join(KANI, crate), env=env(cfg), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=max(30, left(tier) - 60))
            text = p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            out.write("(extraction timed out)\n")
            return False
        finally:
            shutil.rmtree(os.path.join(work, "cp"), ignore_errors=True)
        tests = []
        for m in re.finditer(r"/// Check for `(\w+)`: \"(.*?)\"\n\n(#\[test\]\nfn (\w+)\(\) \{.*?\n\}\n)", text, re.S):
            if m.group(1) != "cover":
                tests.append((m.group(2).strip('"'), m.group(4), m.group(3)))
        if not tests:
            out.write("(the verifier printed none)\n")
            return False
        for d, n, t in tests:
            out.write("// %s\n%s\n" % (d, t))
        scratch = os.path.join(work, "play")
        shutil.copytree(KANI, os.path.join(scratch, "kani"),
                        ignore=shutil.ignore_patterns("target"))
        mod = harness.rsplit("::", 1)[0].replace("::", "/") if "::" in harness else "lib"
        src = os.path.join(scratch, "kani", crate, "src", mod + ".rs")
        with open(src, "a") as f:
            for _, _, t in tests:
                f.write("\n" + t)
        e = env(cfg)
        e["CARGO_TARGET_DIR"] = os.path.join(scratch, "t")
        confirmed = False
        for d, n, _ in tests:
            if left(tier) < 40:
                out.write("(no time left to run %s)\n" % n)
                break
            try:
                p = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", n],
                                   cwd=os.path.join(scratch, "kani", crate), env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=max(20, min(120, left(tier) - 20)))
                log = p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired as x:
                log = (x.stdout or b"").decode(errors="replace") + "\n(timed out)"
                p = None
            ran = "running 1 test" in log
            bad = "FAILED" in log or "SIGABRT" in log or "SIGSEGV" in log or "signal:" in log
            assumed = "kani::assume" in log or "concrete_playback" in log and "assertion `left" in log
            hit = ran and bad and not ("assume" in log and "should always hold" in log)
            out.write("\n== native run of %s: %s ==\n%s\n" % (n, "fails" if hit else "does not fail", log[-6000:]))
            confirmed = confirmed or hit
        shutil.rmtree(scratch, ignore_errors=True)
        return confirmed


class Native:
    """A bounded stand-in: a program that runs the real code natively on all inputs up to a small bound."""

    def __init__(self, pid, work):
        crate = os.path.join(KANI, "native")
        self.bins = sorted(f[:-3] for f in os.listdir(os.path.join(crate, "src", "bin"))
                           if re.match(r"%s_\w+_bounded\.rs$" % pid.lower(), f))
        self.proc = None
        if not self.bins:
            return
        self.target = os.path.join(work, "native")
        self.log = os.path.join(work, "native.log")
        e = env([])
        e["CARGO_TARGET_DIR"] = self.target
        cmd = ["cargo", "build", "--quiet", "--offline"]
        for b in self.bins:
            cmd += ["--bin", b]
        self.cmd = "cargo build (in kani/native) " + " ".join("--bin " + b for b in self.bins)
        self.proc = subprocess.Popen(cmd, cwd=crate, env=e, stdout=open(self.log, "wb"), stderr=subprocess.STDOUT)

    def wait(self, tier):
        """-> [(name, ok | fail | limit, text)]"""
        if self.proc is None:
            return []
        try:
            built = self.proc.wait(timeout=max(10, left(tier) - 15)) == 0
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            built = False
        if not built:
            return [(b, "limit", "does not build against this tree") for b in self.bins]
        out = []
        for b in self.bins:
            try:
                p = subprocess.run([os.path.join(self.target, "debug", b)], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=max(5, min(60, left(tier) - 10)),
                                   preexec_fn=limit_memory)
                text = p.stdout.decode(errors="replace")
                out.append((b, "fail" if p.returncode else "ok", "exit status %d\n%s" % (p.returncode, text[-4000:])))
            except subprocess.TimeoutExpired:
                out.append((b, "limit", "no answer in time"))
        shutil.rmtree(self.target, ignore_errors=True)
        return out


def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) harness=(\S+) check=\"(.*?)\" (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    args = [a for a in sys.argv[1:]]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    spec = PROPERTIES[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=WORK)
    try:
        code = run(pid, spec, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, spec, tier, seed, work):
    groups = select(pid, tier)
    if not groups:
        print("ERROR %s: no obligations selected" % pid)
        return 2
    native = Native(pid, work)
    runs = []
    for (crate, contract), hs in groups.items():
        cfg = ["verif_contracts"] if contract else []
        cfg += CRATES[crate].get("cfg", [])
        runs.append((crate, contract, cfg, hs, Run(crate, contract, cfg, hs, tier, work, jobs=8)))
    verdicts, notes, solver, vccs, cmds = {}, [], 0.0, 0, []
    checks_total = checks_ok = 0
    dropped, errors = [], []
    retry = {}
    for crate, contract, cfg, hs, r in runs:
        r.wait()
        cmds.append(" ".join(r.cmd[:2]) + " (in kani/%s, RUSTFLAGS --cfg %s) %s%s %s" % (
            crate, ",".join(cfg) or "-", "" if contract else "--exact ", " ".join(kani_args(crate, contract)), " ".join("--harness " + h for h in hs)))
        if not r.built():
            if contract:
                # The annotations name items of /repo; when one of those was renamed or its shape
                # changed, the contract layer is out, and the lemmas over the unannotated public
                # functions decide alone.
                dropped += hs
                notes.append("contract layer of %s does not compile against this tree; "
                             "the client lemmas decide" % crate)
                continue
            tail = "\n".join(l for l in r.text.splitlines() if not l.startswith("warning"))[-3000:]
            errors.append("%s: build or verifier run failed\n%s" % (crate, tail))
            continue
        s, v = r.stats()
        solver += s
        vccs += v
        found = r.per_harness()
        if contract:
            for n in sorted(expected_contracts(crate, hs) - {harness_short(h) for h in found}):
                dropped.append(n)
                notes.append("contract obligation %s gave no result" % n)
        for h, res in found.items():
            verdict, failed, note = judge(res)
            verdicts[h] = [verdict, failed, note, crate, cfg, contract, res]
            if verdict == "unwind" and not contract:
                retry.setdefault((crate, contract, tuple(cfg)), []).append(h)
    for (crate, contract, cfg), hs in retry.items():
        pending = hs
        for n in RETRY_UNWIND:
            if not pending or left(tier) < 60:
                break
            r = Run(crate, contract, list(cfg), pending, tier, work, unwind=n).wait()
            nxt = []
            for h, res in r.per_harness().items():
                verdict, failed, note = judge(res)
                if verdict == "unwind":
                    nxt.append(h)
                    verdict, note = "fail", "loop not bounded by %d iterations" % n
                elif verdict == "limit" and not harness_short(h).endswith("_bounded"):
                    verdict = "fail"
                    failed = verdicts[h][1]
                    note = "loop bound of the unchanged tree exceeded; larger bound gave no verdict"
                verdicts[h] = [verdict, failed, note, crate, list(cfg), contract, res]
            pending = nxt
        for h in pending:
            # A fixed large size says nothing about loops that it makes too long for the verifier.
            verdicts[h][0] = "limit" if harness_short(h).endswith("_bounded") else "fail"
    natives = native.wait(tier)
    if natives:
        cmds.append(native.cmd)
    known = known_findings()
    violations, suppressed = [], []
    for h, (verdict, failed, note, crate, cfg, contract, res) in sorted(verdicts.items()):
        for c in (res or {}).get("checks") or []:
            if c["category"] == "cover":
                continue
            checks_total += 1
            # In a successful harness, what fails is the panic it is required to reach.
            checks_ok += c["status"] in ("Success", "Unreachable") or verdict == "ok" and c["status"] == "Failure"
        if verdict == "ok":
            continue
        if verdict == "fail":
            mine = [k for k in known if k[0] == pid and k[1] == harness_short(h)]
            rest = [c for c in failed if not any(k[2] in c["description"] for k in mine)]
            for k in mine:
                if any(k[2] in c["description"] for c in failed):
                    suppressed.append(k)
            if rest or not failed:
                violations.append((h, rest or failed, note, crate, cfg, contract))
        elif contract or harness_short(h).endswith("_bounded"):
            dropped.append(h)
            notes.append("%s: %s" % (h, note))
        else:
            errors.append("%s: %s" % (h, note))
    # The contract of a function is an interface between the proofs, which may legitimately move when
    # code is reorganised: a bound or an invariant written for the present loops need not fit others,
    # and the contract of a private function need not hold. So its failure is a violation only
    # together with that of a lemma over the public functions alone, or when it is the property
    # itself that fails while all loop invariants and frames are accepted.
    def decides(v):
        h, failed, _, _, _, contract = v
        if harness_short(h).startswith("ip"):
            return False
        return not contract or bool(failed) and all(re.match(r'"?P\d\d ', c["description"]) for c in failed)
    if violations and not any(decides(v) for v in violations):
        for v in violations:
            notes.append("contract not discharged on this tree (%s: %s), while every lemma over the public "
                         "functions is" % (v[0], v[1][0]["description"] if v[1] else v[2]))
            dropped.append(v[0])
        violations = []
    for n in notes:
        print("NOTE %s: %s" % (pid, n))
    for k in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    code = 0
    native_failed = [n for n in natives if n[1] == "fail"]
    for n in natives:
        if n[1] == "limit":
            notes.append("bounded stand-in %s: %s" % (n[0], n[2]))
            dropped.append(n[0])
            print("NOTE %s: %s" % (pid, notes[-1]))
    if violations or native_failed:
        code = 1
        path = os.path.join(REPLAYS, pid + ".txt")
        with open(path, "w") as f:
            f.write("property %s: %s\n" % (pid, spec["title"]))
            for h, failed, note, crate, cfg, contract in violations:
                f.write("\nobligation %s (kani/%s, %s): FAILED %s\n" % (
                    h, crate, "contract" if contract else "lemma", note))
                for c in failed:
                    f.write("  [%s] %s at %s:%s in %s\n" % (
                        c["category"], c["description"], c["location"]["file"], c["location"]["line"],
                        c["function"]))
            for b, _, text in native_failed:
                f.write("\nbounded stand-in %s (kani/native), run natively: FAILED %s\n" % (b, text))
                print("FAILED bounded stand-in %s: %s" % (b, " ".join(text.split())[:300]))
            f.write("\ncommands:\n" + "\n".join(cmds) + "\n")
        # The stand-in is itself the native run that fails.
        confirmed = bool(native_failed)
        order = sorted(violations, key=lambda v: (v[5], len(v[0])))
        for v in order[:3]:
            if confirmed or left(tier) < 120:
                break
            if native_replay(pid, v[3], v[5], v[4], v[0], v[1], work, tier, path):
                confirmed = True
                break
        for v in violations:
            print("FAILED obligation %s: %s" % (v[0], "; ".join(sorted({c["description"] for c in v[1]}))[:300] or v[2]))
        print("VIOLATION property=%s replay=%s%s" % (
            pid, path, "" if confirmed else " no-failing-input-found"))
    elif errors:
        code = 2
        for e in errors:
            print("ERROR %s: %s" % (pid, e))
    ok = [h for h, v in verdicts.items() if v[0] == "ok"]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": spec["level"],
        "coverage": {
            "obligations": checks_total,
            "discharged": checks_ok,
            "checker_cmd": " && ".join(cmds),
            "trusted_base": TRUSTED,
            "explanation": spec["how"],
            "harnesses": len(verdicts),
            "harnesses_discharged": len(ok),
            "contract_harnesses": sorted(h for h, v in verdicts.items() if v[5]),
            "lemma_harnesses": sorted(h for h, v in verdicts.items() if not v[5]),
            "bounded_harnesses": sorted(h for h in verdicts if "_bounded" in h),
            "bounded_native_programs": {b: v for b, v, _ in natives},
            "contract_layer_dropped": sorted(dropped),
            "verification_conditions": vccs,
            "back_end": "CBMC 6.11.0, CaDiCaL (SAT), through Kani 0.68.0",
            "solver_s": round(solver, 3),
            "covers_satisfied": sum(1 for v in verdicts.values() for c in (v[6] or {}).get("checks") or []
                                    if c["category"] == "cover" and c["status"] == "Satisfied"),
            "functions_under_contract": spec.get("contracts", []),
            "notes": notes + errors,
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - START, 1),
        "violations": len(violations) + len(native_failed),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s: %d/%d obligations in %d/%d harnesses discharged, solver %.1f s, wall %.1f s" % (
        pid, checks_ok, checks_total, len(ok), len(verdicts), solver, time.time() - START))
    return code


if __name__ == "__main__":
    main()
