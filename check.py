#!/usr/bin/env python3
"""Decides one property of solana-lite-account-manager.

  python3 check.py C01 [--tier quick|thorough]

1. vx extracts the functions under contract from /repo's current source, mechanically, and
   weaves in the contracts of /verif/contracts; Verus must accept every obligation.
2. The same contracts, in executable form, run on the real crates (harness): this gives the
   failing input when an obligation fails, and is the labelled bounded stand-in for functions
   outside the verifier's reach.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LAM_REPO", "/repo")
WORK = os.environ.get("LAM_WORK", os.path.join(HERE, ".work"))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS  # noqa: E402


def env_cargo(target):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=target, RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    return e


def sh(cmd, env=None, cwd=None, timeout=None):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, dec(x.stdout), dec(x.stderr)


def build_vx():
    e = env_cargo(os.path.join(WORK, "vxt"))
    e["RUSTUP_TOOLCHAIN"] = "stable"
    rc, o, er = sh(["cargo", "build", "--offline", "--quiet"], env=e, cwd=os.path.join(HERE, "vx"), timeout=600)
    if rc != 0:
        raise RuntimeError("extractor does not build: " + er[-2000:])
    return os.path.join(WORK, "vxt", "debug", "vx")


def harness_env():
    e = env_cargo(os.path.join(REPO, "target"))
    e["RUSTUP_TOOLCHAIN"] = "1.76.0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    return e


def build_harness(crate="harness"):
    """The harness crate, built against a fresh copy of /repo's current sources."""
    ws, hd = os.path.join(WORK, "ws"), os.path.join(WORK, crate)
    for d in (ws, hd):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(ws)
    for name in os.listdir(REPO):
        if name in (".git", "target", "simulate_from_snapshot") and name != "simulate_from_snapshot":
            continue
        s = os.path.join(REPO, name)
        # copy() gives the files a fresh mtime, so cargo never takes an older build for current
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(ws, name), copy_function=shutil.copy, ignore=shutil.ignore_patterns("target", ".git"))
        else:
            shutil.copy(s, os.path.join(ws, name))
    shutil.copytree(os.path.join(HERE, crate), hd, copy_function=shutil.copy, ignore=shutil.ignore_patterns("target"))
    for m, to in ((os.path.join(hd, "Cargo.toml"), "../ws/"), (os.path.join(hd, "src", "main.rs"), "../../ws/")):
        t = open(m).read().replace('path = "/repo/', 'path = "' + to)
        open(m, "w").write(t)
    target = os.path.join(REPO, "target")
    rc, o, er = sh(["cargo", "build", "--offline"], env=harness_env(), cwd=hd, timeout=840)
    if rc != 0:
        raise RuntimeError("harness does not build against the current tree:\n" + er[-4000:])
    name = "lam-" + crate
    b = os.path.join(WORK, name)
    if os.path.exists(b):
        os.remove(b)  # an earlier one may still be running
    shutil.copy(os.path.join(target, "debug", name), b)
    return b


class Unit:
    """One extracted unit and what Verus says about it."""

    def __init__(self, name):
        self.name = name
        self.fns = {}        # path -> (file, l0, l1, g0, g1)
        self.undecided = {}  # fn -> reason
        self.failed = []     # (fn or None, message, rendered)
        self.broken = None   # whole unit not analysable
        self.verified = self.errors = 0
        self.ms = 0
        self.rules = {}
        self.trusted = []
        self.probe_ok = self.probe_all = 0
        self.per_fn_ms = {}
        self.queries = 0


def read_map(path):
    fns, rules, und = {}, {}, {}
    for l in open(path):
        p = l.rstrip("\n").split("\t")
        if p[0] == "#rule":
            rules[p[1]] = int(p[2])
        elif p[0] == "#undecided":
            und[p[1]] = p[2]
        else:
            fns[p[0]] = (p[1], int(p[2]), int(p[3]), int(p[4]), int(p[5]))
    return fns, rules, und


def fn_at(fns, line):
    for f, (_, _, _, g0, g1) in fns.items():
        if g0 <= line <= g1:
            return f
    return None


VERDICTS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "loop invariant not satisfied", "possible arithmetic underflow/overflow", "decreases not satisfied",
            "unreachable", "possible division by zero", "could not show termination", "recommendation not met",
            "constructor of a datatype with resource", "possible bit shift", "loop ensures not satisfied", "possible integer",
            "may panic", "index out of bounds")


def verus(path, merr=4, timeout=400, more=()):
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    rc, o, er = sh(["verus", os.path.basename(path), "--output-json", "--time", "--multiple-errors", str(merr), "--num-threads", "8", *more, "--", "--error-format=json"],
                   env=e, cwd=os.path.dirname(path), timeout=timeout)
    try:
        js = json.loads(o)
    except Exception:
        js = None
    diags = []
    for l in er.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    return rc, js, diags, er


def run_unit(vx, name, tier, seed):
    u = Unit(name)
    d = os.path.join(WORK, "vx")
    os.makedirs(d, exist_ok=True)
    tpl = os.path.join(HERE, "contracts", name + ".vspec")
    out, mp = os.path.join(d, name + ".rs"), os.path.join(d, name + ".map")
    stubs = []
    for _ in range(12):
        rc, o, er = sh([vx, tpl, REPO, out, mp, "--stub", ";".join(stubs)])
        if rc != 0:
            u.broken = er.strip()[:600]
            return u
        u.fns, u.rules, und = read_map(mp)
        for f, r in und.items():
            u.undecided[f] = r
        vrc, js, diags, raw = verus(out)
        if vrc == 124:
            u.broken = "verifier time limit"
            return u
        errs = [x for x in diags if x.get("level") == "error" and x.get("spans")]
        vres = (js or {}).get("verification-results", {})
        compile_errs = [x for x in errs if not any(v in x["message"] for v in VERDICTS) and "esource limit" not in x["message"]]
        if js is None or vres.get("encountered-vir-error") or compile_errs or (vres.get("encountered-error") and not vres.get("errors")):
            # not a verdict: outside the accepted language. Give the offending functions up, keep the rest.
            bad = set()
            for x in compile_errs or errs:
                for s in x["spans"]:
                    f = fn_at(u.fns, s["line_start"])
                    if f and f not in stubs:
                        bad.add((f, x["message"].split("\n")[0][:200]))
            if not bad:
                u.broken = "verifier input not accepted: " + (errs[0]["rendered"][:500] if errs else raw[-500:])
                return u
            for f, m in bad:
                stubs.append(f)
                u.undecided[f] = "not accepted by the verifier: " + m
            continue
        break
    else:
        u.broken = "verifier input not accepted"
        return u
    u.verified, u.errors = vres.get("verified", 0), vres.get("errors", 0)
    t = js.get("times-ms", {})
    u.ms = t.get("total", 0)
    for m in t.get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            k = f["function"].split("::", 1)[-1]
            u.per_fn_ms[k] = u.per_fn_ms.get(k, 0) + f.get("time-micros", 0) / 1000.0
            u.queries += 1
    def culprit(x):
        line = None
        for s in x["spans"]:
            if fn_at(u.fns, s["line_start"]):
                line = s["line_start"]
                if s.get("is_primary"):
                    break
        return fn_at(u.fns, line) if line else None
    if errs:
        # a proof that one solver run does not find counts when another run, with more resources and another seed, finds it
        r2, j2, d2, _ = verus(out, timeout=300, more=("--rlimit", "60", "--smt-option", "smt.random_seed=7"))
        v2 = (j2 or {}).get("verification-results", {})
        if r2 != 124 and j2 is not None and not v2.get("encountered-vir-error"):
            e2 = [x for x in d2 if x.get("level") == "error" and x.get("spans")]
            again = {culprit(x) for x in e2}
            errs = [x for x in errs if culprit(x) in again]
            # where the first run only ran out of resources, the verdict of the second one counts
            cut = {culprit(x) for x in errs if "esource limit" in x["message"]}
            errs = [x for x in errs if culprit(x) not in cut] + [x for x in e2 if culprit(x) in cut]
    for x in errs:
        f = culprit(x)
        if "esource limit" in x["message"] or "timed out" in x["message"]:
            u.undecided[f or "*"] = "resource limit of the solver"
        else:
            u.failed.append((f, x["message"], x.get("rendered", "")))
    # a failure inside a function whose solver run was also cut off stays a failure only if it is definite
    # vacuity: assert(false) at the start of every body must fail
    pr, pm = os.path.join(d, name + "_probe.rs"), os.path.join(d, name + "_probe.map")
    rc, _, er = sh([vx, tpl, REPO, pr, pm, "--probe", "--stub", ";".join(stubs)])
    pf, _, _ = read_map(pm)
    _, pj, pd, _ = verus(pr, 1)
    hit = set()
    for x in pd:
        if x.get("level") == "error":
            for s in x.get("spans", []):
                f = fn_at(pf, s["line_start"])
                if f:
                    hit.add(f)
    live = [f for f in pf if f not in stubs and f not in u.undecided]
    u.probe_all, u.probe_ok = len(live), len([f for f in live if f in hit])
    vac = [f for f in live if f not in hit]
    for f in vac:
        u.undecided[f] = "precondition is contradictory (vacuous)"
    # mechanical scan for what is assumed
    txt = open(out).read().splitlines()
    for i, l in enumerate(txt):
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]\s*\(", l)
        if m:
            u.trusted.append("assume_specification " + m.group(1))
        elif "external_body" in l or "axiom fn" in l:
            if "axiom fn" in l:
                u.trusted.append("axiom " + re.search(r"fn (\w+)", l).group(1))
                continue
            for j in range(i, min(i + 8, len(txt))):
                m = re.search(r"\b(fn|struct) (\w+)", txt[j])
                if m:
                    ctx = ""
                    for k in range(i, -1, -1):
                        mm = re.match(r"(impl|pub trait|trait)\b(.*)\{", txt[k])
                        if mm:
                            ctx = re.sub(r"^<[^>]*>\s*", "", mm.group(2).strip()) + "::"
                            break
                        if txt[k].startswith("}"):
                            break
                    u.trusted.append(("external_body " if m.group(1) == "fn" else "opaque type ") + ctx + m.group(2))
                    break
        elif re.search(r"\b(assume|admit)\s*\(", l):
            u.trusted.append("assume at %s.rs:%d" % (name, i + 1))
    return u


CRATES = (("lite-account-manager-common", "c"), ("lite-account-storage", "as"), ("lite-token-account-storage", "ts"), ("lite-accounts-on-demand", "od"))


def run_locks(want):
    """The lock-order contracts, over the MIR rustc makes of the same copy of /repo's sources the harness is built from."""
    u = Unit("lockorder")
    u.info = None
    d = os.path.join(WORK, "mir")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = harness_env()
    mirs = []
    for pkg, short in CRATES:
        m = os.path.join(d, short + ".mir")
        rc, o, er = sh(["cargo", "rustc", "--offline", "-q", "-p", pkg, "--lib", "--", "--emit=mir=" + m], env=e, cwd=os.path.join(WORK, "harness"), timeout=300)
        if rc != 0 or not os.path.exists(m):
            u.broken = "no MIR of %s: %s" % (pkg, er[-500:])
            return u
        mirs.append(m)
    out = os.path.join(d, "locks.json")
    rc, o, er = sh([sys.executable, os.path.join(HERE, "tools", "locks.py"), out, *mirs], timeout=300)
    if rc != 0 or not os.path.exists(out):
        u.broken = "the lock analysis ended with %d: %s" % (rc, er[-500:])
        return u
    u.info = j = json.load(open(out))
    for f, at in j["where"].items():
        if f in j["functions"] or f in j["unsupported"]:
            u.fns[f] = (at[0], at[1], at[1], 0, 0)
    for f in want:
        if f not in u.fns:
            u.undecided[f] = "does not take a lock in the current source, or is not found"
    for f, r in j["unsupported"].items():
        u.undecided[f] = r
    u.verified = len(u.fns) - len(u.undecided)
    u.ms = int(j["wall_s"] * 1000)
    u.per_fn_ms = {"order": j["z3_s"] * 1000}
    for c in j["core"]:
        for f, what in c["at"][:3]:
            if c["held"].startswith("(a wait"):
                u.failed.append((f, "waits in %s without a time limit" % what, ""))
                u.errors += 1
                continue
            u.failed.append((f, "%s, taken at %s, comes after %s, which is held there" % (c["acquired"], what, c["held"]),
                             "  part of a cycle of %d obligations: %s" % (len(j["core"]), "; ".join("%s before %s" % (x["held"], x["acquired"]) for x in j["core"]))))
            u.errors += 1
    if j["result"] not in ("sat", "unsat"):
        u.broken = "no answer from z3 about the order"
    return u


def main():
    t0 = time.time()
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + ".txt")
    if os.path.exists(replay):
        os.remove(replay)

    hb = None
    herr = None
    try:
        hb = build_harness(P.get("harness", "harness"))
    except RuntimeError as x:
        herr = str(x)
    units = []
    if P.get("units"):
        vx = build_vx()
        for n in P["units"]:
            units.append(run_unit(vx, n, tier, seed))
    locks = None
    if P.get("locks"):
        if herr:
            locks = Unit("lockorder")
            locks.broken, locks.info = "the current tree does not build", None
        else:
            locks = run_locks(P["locks"])
        units.append(locks)

    failed, undecided, discharged_fns, contract_fns = [], [], [], []
    for u in units:
        want = P["units"][u.name] if u is not locks else sorted(set(u.fns) | set(P["locks"]))
        # "function@regex": of the function's contract only the clauses that match belong to this property
        only = dict(f.split("@", 1) for f in want if "@" in f) if want != "*" else {}
        names = [f for f in u.fns] if want == "*" else [f.split("@", 1)[0] for f in want]
        if u.broken:
            undecided.append((u.name, u.broken))
            continue
        for f in names:
            if f in u.undecided or f not in u.fns:
                undecided.append((u.name + "/" + f, u.undecided.get(f, "not found in the current source")))
            else:
                contract_fns.append((u, f))
        if "*" in u.undecided:
            undecided.append((u.name, u.undecided["*"]))
        bad = set()
        for f, msg, ren in u.failed:
            if f in only and msg.startswith("postcondition") and not re.search(only[f], ren):
                continue
            if f is None or f in names:
                failed.append((u, f, msg, ren))
                bad.add(f)
        discharged_fns += [(u, f) for f in names if f in u.fns and f not in u.undecided and f not in bad]

    # executable contracts on the real code
    hres = None
    hfail = None
    if hb:
        budget = P.get("budget", {}).get(tier, 420 if tier == "thorough" else 120)
        if failed and tier == "quick":
            budget = max(budget, 200)
        t = "thorough" if (tier == "thorough" or failed or undecided) else "quick"
        rc, o, er = sh([hb, "--prop", pid, "--seed", str(seed), "--tier", t, "--budget", str(budget)], timeout=budget + 120,
                       cwd=WORK, env={**os.environ, "RUST_BACKTRACE": "0"})
        try:
            hres = json.loads(o[o.index("{"):])
            hfail = hres.get("failure")
        except Exception:
            if rc in (124,):
                hres, hfail = None, {"suite": "harness", "case": "(the run was cut off after %d s)" % (budget + 120), "why": "the code under test does not return: " + er[-600:]}
            else:
                hfail = {"suite": "harness", "case": "(process ended with %d)" % rc, "why": "the code under test ended the process: " + (er or o)[-1500:]}

    known = json.load(open(os.path.join(HERE, "known_findings.json"))).get("findings", [])
    for f in known:
        if f["property"] == pid and hres and any(k[0] == f["id"] for k in hres.get("known", [])):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["summary"]))

    level = P.get("level", "proof")
    eff = level
    if level == "proof" and (undecided or not units):
        eff = "exploration"
    obligations = len(discharged_fns) + len({(u.name, f) for u, f, _, _ in failed})
    cov = {
        "obligations": obligations,
        "discharged": len(discharged_fns),
        "obligation_unit": "one exec function under contract (every pre/postcondition, loop invariant, termination, overflow and panic-freedom condition of its body)",
        "verus_items_verified": {u.name: {"verified": u.verified, "errors": u.errors, "functions_extracted": len(u.fns)} for u in units},
        "functions_under_contract": ["%s (%s:%d-%d)" % (f, *u.fns[f][:3]) for u, f in contract_fns],
        "undischarged": ["%s: %s" % (f, m) for _, f, m, _ in failed],
        "undecided": ["%s: %s" % x for x in undecided],
        "back_end": "Verus 0.2026.09.13 / Z3, one query per function, no bound" if not locks else
        "tools/locks.py over rustc's MIR (contracts of the functions, checked path by path, no bound on threads or schedules) / z3 for the order of the locks",
        "solver_ms": {u.name: round(sum(u.per_fn_ms.values()), 1) for u in units},
        "verifier_total_ms": {u.name: u.ms for u in units},
        "vacuity_probes": {u.name: "%d of %d preconditions shown satisfiable" % (u.probe_ok, u.probe_all) for u in units},
        "extraction_rules_applied": {u.name: u.rules for u in units},
        "checker_cmd": "vx contracts/<unit>.vspec /repo <unit>.rs && verus <unit>.rs  (units: %s)" % ", ".join(u.name for u in units) if units and not locks else
        "cargo rustc -- --emit=mir for each crate && python3 tools/locks.py OUT.json *.mir" if locks else "none",
        "trusted_base": sorted(set(sum((u.trusted for u in units), []))) + P.get("trusted", []),
        "bounded_standins": P.get("bounded", []),
        "evaluations": (hres or {}).get("evaluations", 0),
        "distinct_nontrivial": (hres or {}).get("distinct_nontrivial", 0),
        "rule": " | ".join((hres or {}).get("rules", [])),
        "samples": (hres or {}).get("samples", []),
        "exhaustive_spaces": (hres or {}).get("exhaustive", []),
        "executable_contract_run_complete": (hres or {}).get("complete", False),
    }
    if not units:
        for k in ("verus_items_verified", "back_end", "solver_ms", "verifier_total_ms", "vacuity_probes", "extraction_rules_applied", "obligation_unit"):
            cov.pop(k, None)
    if locks:
        cov["obligation_unit"] = "one function that takes a lock, itself or through a callee (each lock taken, at each point of its body, against each lock held there)"
        cov.pop("vacuity_probes"), cov.pop("extraction_rules_applied")
        cov["verus_items_verified"] = {}
        if locks.info:
            j = locks.info
            cov["lock_contracts"] = j["functions"]
            cov["guards_returned"] = j["returns"]
            cov["lock_order_found"] = j["order"]
            cov["orderings_required"] = ["%s before %s (%d places)" % (x["held"], x["acquired"], x["sites"]) for x in j["pairs"]]
            cov["functions_without_locks_checked"] = j["checked"] - len(j["functions"])
            cov["acquisition_obligations"] = j["obligations"]
            cov["program_points"] = j["points"]
    violations = 0
    code = 0
    lines = []
    if hfail:
        violations = 1
        code = 1
        txt = ["property %s does not hold on the current tree of %s" % (pid, REPO), "",
               "failing case (suite %s, seed %d), one operation per line:" % (hfail["suite"], seed), hfail["case"], "", "what happened on the real code:", hfail["why"], ""]
        for u, f, m, r in failed:
            txt += ["failed obligation: %s / %s: %s" % (u.name, f, m), r]
        txt += ["re-run: cd /verif && VERIF_SEED=%d python3 check.py %s" % (seed, pid)]
        open(replay, "w").write("\n".join(txt) + "\n")
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
    elif failed:
        violations = len({(u.name, f) for u, f, _, _ in failed})
        code = 1
        txt = ["property %s: the verifier no longer accepts these obligations; no failing input was found by running the executable contracts (%d cases)" % (pid, cov["evaluations"]), ""]
        for u, f, m, r in failed:
            src = u.fns.get(f)
            txt += ["failed obligation: unit %s, function %s (%s): %s" % (u.name, f, "%s:%d-%d" % src[:3] if src else "lemma", m), r]
        txt += ["re-run: cd /verif && python3 check.py %s; the verified text is .work/vx/<unit>.rs" % pid]
        open(replay, "w").write("\n".join(txt) + "\n")
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
    elif herr and P.get("harness") and not undecided:
        # code that the build of the repository leaves out need not build here
        print("NOTE the executable contracts were not run, all obligations are discharged: " + herr[:3000])
    elif herr:
        print("ERROR " + herr[:3000])
        code = 2
    elif not hres and not units:
        code = 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": eff, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    if not cov["samples"]:
        cov["samples"] = ["(no case was run)"]
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d/%d functions discharged, %d undecided, %d cases (%d distinct non-trivial), %.0f s" % (
        pid, tier, cov["discharged"], cov["obligations"], len(undecided), cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    for x in undecided:
        print("UNDECIDED (bounded check stands in): %s: %s" % x)
    for l in lines:
        print(l)
    sys.exit(code)


if __name__ == "__main__":
    main()
