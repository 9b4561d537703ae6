#!/usr/bin/env python3
"""Driver: python3 check.py <property> | setup | replay <file> | build <property>

Every run regenerates the verified text from /repo's working tree, compiles the contracts of the property
against it, enumerates all paths, discharges the obligations and writes evidence/<property>.json.
"""
import fcntl, json, os, re, select, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TOOLCHAIN = "1.85.1-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
TARGET = os.path.join(BUILD, "target")

sys.path.insert(0, VERIF)
import kani_run  # noqa: E402
from plan import PLAN, TRUSTED, EXTRA  # noqa: E402


def log(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = text.encode() if isinstance(text, str) else text
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)


def sync(src, dst, skip=("target", ".git")):
    """copy a tree, touching only files whose content changed"""
    want = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in skip]
        for f in fs:
            p = os.path.join(d, f)
            o = os.path.join(dst, os.path.relpath(p, src))
            want.add(o)
            write(o, open(p, "rb").read())
    for d, ds, fs in os.walk(dst):
        ds[:] = [x for x in ds if x not in skip]
        for f in fs:
            o = os.path.join(d, f)
            if o not in want and f != "Cargo.lock":
                os.unlink(o)


def run(cmd, timeout=None, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace"), time.time() - t


def cargo(args, cwd, timeout=800, env=None):
    e = dict(env or ENV, CARGO_TARGET_DIR=TARGET)
    return run(["cargo"] + args + ["--offline"], timeout=timeout, cwd=cwd, env=e)


# ------------------------------------------------------------------ generated packages
def manifest(symbolic):
    t = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    if not os.path.exists(f"{REPO}/factrs-typetag/Cargo.toml"):
        t = re.sub(r"(?m)^typetag\s*=.*\n", "", t)
        t = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", t)
        t = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", t)
    for sec in ("dev-dependencies", "[example", "[bench", "[test"):
        t = re.sub(r"(?ms)^\[%s\]*.*?(?=^\[|\Z)" % re.escape(sec), "", t)
    t = re.sub(r'path\s*=\s*"\./factrs-proc"', 'path = "../../proc"', t)
    # the rerun SDK is replaced by its assumed contract
    sdk = 'rerun = { path = "../../../engine/rerun", optional = true%s }\n' % (', features = ["sym"]' if symbolic else "")
    t = re.sub(r"(?ms)^rerun\s*=\s*\{.*?\}\n", lambda _: sdk, t, count=1)
    t = t.replace("[features]\n", "[features]\nverif = []\n", 1) if "[features]" in t else t + "\n[features]\nverif = []\n"
    if symbolic:
        t = t.replace("[dependencies]", '[dependencies]\nsymnum = { path = "../../../engine/symnum" }', 1)
    return t + "\n[workspace]\n"


def harness_manifest(symbolic):
    bins = "".join(
        '[[bin]]\nname = "%s"\npath = "../../../contracts/%s.rs"\n' % (b, b)
        for b in sorted(f[:-3] for f in os.listdir(f"{VERIF}/contracts") if re.match(r"c\d\d[a-z_]*\.rs$", f))
    )
    spec = "symnum" if symbolic else "realnum"
    return f"""[package]
name = "harness"
version = "0.1.0"
edition = "2021"
autobins = false
[dependencies]
factrs = {{ path = "../factrs" }}
nalgebra = "*"
faer = {{ version = "*", default-features = false }}
paste = "*"
ahash = "*"
num-dual = "*"
spec = {{ package = "{spec}", path = "../../../engine/{spec}" }}
rerun = {{ path = "../../../engine/rerun", optional = true }}
[features]
left = ["factrs/left"]
fake_exp = ["factrs/fake_exp"]
verif = ["factrs/verif"]
rerun = ["factrs/rerun", "dep:rerun"]
[workspace]
[profile.dev]
opt-level = 1
debug = 0
incremental = false
overflow-checks = true
debug-assertions = true
{bins}"""


def prepare(symbolic):
    sync(f"{REPO}/factrs-proc", f"{BUILD}/proc")
    base = f"{BUILD}/{'sym' if symbolic else 'real'}"
    lock = open(f"{REPO}/Cargo.lock", "rb").read()
    if symbolic:
        ex = f"{VERIF}/engine/extract"
        rc, out, err, _ = run(["cargo", "build", "--offline", "--release", "--manifest-path", f"{ex}/Cargo.toml", "--target-dir", f"{BUILD}/extract"], timeout=300)
        if rc != 0:
            raise CheckError("the extractor does not build:\n" + err[-3000:])
        os.makedirs(f"{base}/factrs/src", exist_ok=True)
        rc, out, err, _ = run([f"{BUILD}/extract/release/extract", f"{REPO}/src", f"{base}/factrs/src"], timeout=60)
        if rc != 0:
            raise CheckError("extraction failed: " + err[-2000:])
    else:
        sync(f"{REPO}/src", f"{base}/factrs/src")
    write(f"{base}/factrs/Cargo.toml", manifest(symbolic))
    if os.path.exists(f"{REPO}/README.md"):
        write(f"{base}/factrs/README.md", open(f"{REPO}/README.md", "rb").read())
    write(f"{base}/harness/Cargo.toml", harness_manifest(symbolic))
    seen = f"{base}/harness/.lock.repo"
    if not (os.path.exists(seen) and open(seen, "rb").read() == lock and os.path.exists(f"{base}/harness/Cargo.lock")):
        write(f"{base}/harness/Cargo.lock", lock)
        write(seen, lock)
    return base


def build(symbolic, bins, features=()):
    base = prepare(symbolic)
    args = ["build"]
    for b in bins:
        args += ["--bin", b]
    if features:
        args += ["--features", ",".join(features)]
    rc, out, err, secs = cargo(args, cwd=f"{base}/harness")
    if rc != 0:
        return None, err, secs
    tag = "-".join(["sym" if symbolic else "real"] + list(features))
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    res = {}
    for b in bins:
        dst = f"{BUILD}/bin/{b}-{tag}"
        shutil.copy2(f"{TARGET}/debug/{b}", dst)
        res[b] = dst
    return res, err, secs


# ------------------------------------------------------------------ the verifier run
def definite(r):
    return any(f["by"] != "solver: unknown" for f in r["failures"])


def sym_run(binary, tier, only=None, limit=None):
    """run the verifier; once a contract is refuted the others only get a little longer"""
    limit = limit or (6000 if tier == "thorough" else 480)
    env = dict(ENV, VERIF_SEED=str(SEED), SYM_TIMEOUT_MS="60000" if tier == "thorough" else "20000",
               SYM_CONTRACT_SECS="3000" if tier == "thorough" else str(int(min(300, limit * 0.7))), SYM_THREADS="8", VERIF_TIER=tier,
               SYM_TOTAL_SECS="5400" if tier == "thorough" else str(int(limit * 0.85)))
    t = time.time()
    end = t + limit
    reps = []
    ef = f"{BUILD}/sym.err"
    with open(ef, "wb") as errf:
        p = subprocess.Popen([binary] + ([only] if only else []), env=env, stdout=subprocess.PIPE, stderr=errf, start_new_session=True)
        buf, killed = b"", False
        os.set_blocking(p.stdout.fileno(), False)
        while True:
            left = end - time.time()
            if left <= 0:
                killed = True
                break
            if not select.select([p.stdout], [], [], min(left, 5))[0]:
                continue
            d = os.read(p.stdout.fileno(), 1 << 20)
            if not d:
                break
            buf += d
            *lines, buf = buf.split(b"\n")
            for l in lines:
                if l.startswith(b"{"):
                    try:
                        reps.append(json.loads(l))
                    except ValueError:
                        continue
                    if definite(reps[-1]):
                        end = min(end, time.time() + 40)
        if killed:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        p.stdout.close()
        rc = p.wait()
    err = open(ef, errors="replace").read()
    return (124 if killed else rc), reps, err, time.time() - t


def real_hit(binary, contract, more):
    """a failing execution of one contract under the given environment, or None"""
    rr, _ = real_run(binary, contract, 1, [], more=more)
    return next((x["failure"] for x in rr if x["failure"]), None)


def real_run(binary, contract, samples, models, secs=20, tight=False, more=None):
    mf = f"{BUILD}/models.txt"
    write(mf, "\n\n".join("\n".join(f"{k}={v!r}" for k, v in m.items() if v is not None) for m in models) + "\n")
    env = dict(ENV, VERIF_SEED=str(SEED), REAL_SECS=str(secs), **(more or {}))
    if tight:
        env["REAL_TIGHT"] = "1"
    rc, out, err, t = run([binary, contract, str(samples), mf], timeout=600, env=env)
    reps = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                reps.append(json.loads(l))
            except ValueError:
                pass
    return reps, err


def functions_sorted(reps):
    s = set()
    for r in reps:
        for f in re.split(r",\s*(?![^{]*\})", r["functions"]):
            if f.strip():
                s.add(f.strip())
    return sorted(s)


def check(pid):
    t0 = time.time()
    plan = PLAN[pid]
    tier = TIER if TIER in ("quick", "thorough") else "quick"
    violations = []      # (contract, what, inputs or None, detail)
    notes = []
    evid = {"contracts": [], "bounded_contracts": [], "standins": []}
    obligations = discharged = paths = witnessed = validated = 0
    by, smtby, smt = {}, {}, {"queries": 0, "secs": 0.0, "longest": 0.0}
    allreps, samples = [], []
    runs = [(r[0], tuple(r[1]), (r[2:] or [None])[0]) for r in plan["runs"]]
    if tier == "thorough":
        runs = [(b, f, None) for b, f, _ in runs] + [(b, tuple(f), None) for b, f in plan.get("thorough", [])]
    build_s = 0.0
    budget = 480.0       # seconds of proving in the quick tier, over all runs
    for binname, feats, only in runs:
        if any(v["replay"] for v in violations):
            notes.append(f"{binname}+{'+'.join(feats)}: not run, a violation is already shown")
            continue
        tag = binname + ("".join("+" + f for f in feats))
        bins, err, secs = build(True, [binname], feats)
        build_s += secs
        if bins is None and "verif" in feats and build(False, [binname], feats)[0] is None:
            # the guarded hook does not compile: go on without it
            notes.append(f"{tag}: the hook does not compile; the contracts that need it fall back to the public interface")
            feats = tuple(f for f in feats if f != "verif")
            bins, err, secs = build(True, [binname], feats)
            build_s += secs
        failed, standin = [], []
        if bins is None:
            first = "\n".join([l for l in err.splitlines() if l.startswith("error")][:6])
            notes.append(f"{tag}: the extracted text is outside the prover's reach (does not compile over symbolic reals): {first}")
            standin.append(("", [], "does not compile over symbolic reals"))
        else:
            rc, reps, rerr, secs = sym_run(bins[binname], tier, only, limit=None if tier == "thorough" else max(60.0, budget))
            budget -= secs
            if rc != 0 and not reps:
                raise CheckError(f"{tag}: verifier run ended with {rc}: {rerr[-2000:]}")
            if rc != 0 and not any(definite(r) for r in reps):
                standin.append(("", [], f"verifier run ended with {rc}"))
                notes.append(f"{tag}: verifier run ended with {rc}: {rerr[-500:]}")
            for r in reps:
                r["run"] = tag
                allreps.append(r)
                obligations += r["obligations"]
                discharged += r["discharged"]
                paths += r["paths"]
                witnessed += r["witnessed"]
                validated += r["validated"]
                for k, v in r["by"].items():
                    by[k] = by.get(k, 0) + v
                for k, v in r["smt"]["by"].items():
                    smtby[k] = smtby.get(k, 0) + v
                smt["queries"] += r["smt"]["queries"]
                smt["secs"] += r["smt"]["secs"]
                smt["longest"] = max(smt["longest"], r["smt"]["longest"])
                unk = [f for f in r["failures"] if f["by"] == "solver: unknown"]
                if unk and len(unk) == len(r["failures"]):
                    why = "undecided: " + "; ".join(f["label"] for f in unk[:5])
                    standin.append((r["name"], [], why[:600]))
                    notes.append(f"{tag}/{r['name']}: {why[:600]}")
                elif r["failures"]:
                    failed.append(r)
                elif r["errors"]:
                    standin.append((r["name"], [], "; ".join(r["errors"])[:600]))
                    notes.append(f"{tag}/{r['name']}: {'; '.join(r['errors'])[:600]}")
                elif r["obligations"] == 0 or r["paths"] == 0 or r["witnessed"] == 0:
                    standin.append((r["name"], [], "vacuous"))
                    notes.append(f"{tag}/{r['name']}: vacuous (obligations {r['obligations']}, paths {r['paths']}, witnessed {r['witnessed']})")
        if failed or standin:
            rbins, rberr, _ = build(False, [binname], feats)
            if rbins is None and plan.get("compiles") and not failed and build(False, [plan["compiles"]], feats)[0]:
                # the documented text of the macro no longer compiles, though the crate does
                lines = [l for l in rberr.splitlines() if l.startswith("error")]
                text = rberr[rberr.find("error"):][:4000]
                violations.append(dict(run=tag, contract="compiles", functions="fac!", obligations=[dict(label="the documented forms of the macro compile", kind="compile", by="rustc", detail="; ".join(lines[:4]), model=None)],
                                       replay=dict(failed=[dict(label="the documented forms of the macro compile", detail=text)], inputs={"source": f"contracts/{binname}.rs"})))
                continue
            if rbins is None:
                if not failed:
                    raise CheckError(f"{tag}: the contracts do not compile against the real crate (lost anchor):\n" + rberr[-3000:])
            for r in failed:
                models = [f["model"] for f in r["failures"] if f.get("model")]
                hit = None
                if rbins:
                    labels = {f["label"] for f in r["failures"]}
                    found = any(v["replay"] for v in violations)
                    rsecs = 3 if found or time.time() - t0 > 650 else 20
                    rr, _ = real_run(rbins[binname], r["name"], 20000, models, secs=rsecs)
                    hit = next((x for x in rr if x["failure"]), None)
                    if not hit and not found:
                        rr, _ = real_run(rbins[binname], r["name"], 20000, models, secs=rsecs, tight=True)
                        hit = next((x for x in rr if x["failure"] and any(f["label"] in labels for f in x["failure"]["failed"])), None)
                f0 = r["failures"][0]
                violations.append(dict(run=tag, contract=r["name"], functions=r["functions"],
                                       obligations=[dict(label=f["label"], kind=f["kind"], by=f["by"], detail=f["detail"], model=f["model"]) for f in r["failures"]],
                                       replay=hit["failure"] if hit else None))
            for name, _, why in standin:
                rr, rerr = real_run(rbins[binname], name, 20000, [], secs=8 if time.time() - t0 > 400 else 15) if rbins else ([], "")
                if not rr:
                    raise CheckError(f"{tag}/{name or 'all'}: no answer from the prover ({why}) nor from the concrete stand-in: {rerr[-800:]}")
                for x in rr:
                    evid["standins"].append(dict(contract=f"{tag}/{x['name']}", why=why, executions=x["executions"], rejected=x["rejected"]))
                    if x["failure"]:
                        violations.append(dict(run=tag, contract=x["name"], functions=x["functions"], obligations=[dict(label=f["label"], kind="concrete stand-in", by="execution", detail=f["detail"], model=None) for f in x["failure"]["failed"]], replay=x["failure"]))
                    elif x["executions"] == 0:
                        raise CheckError(f"{tag}/{x['name']}: no answer from the prover ({why}) and no admissible concrete input")
    for name in plan.get("extra", []):
        res = EXTRA[name](dict(VERIF=VERIF, REPO=REPO, BUILD=BUILD, ENV=ENV, run=run, write=write, sync=sync, tier=tier, seed=SEED, CheckError=CheckError, prepare=prepare, build=build, real=real_hit))
        obligations += res["obligations"]
        discharged += res["discharged"]
        for k, v in res["by"].items():
            by[k] = by.get(k, 0) + v
        allreps += res["reports"]
        violations += res["violations"]
        notes += res["notes"]
    if obligations == 0 and not evid["standins"]:
        raise CheckError("no obligation was generated")
    # ---- known findings
    known = []
    try:
        kf = [l.strip() for l in open(f"{VERIF}/known_findings.txt") if l.startswith("finding: property=%s " % pid)]
    except OSError:
        kf = []
    rest = []
    for v in violations:
        m = None
        for l in kf:
            c = re.search(r"contract=(\S+)", l)
            if c and c.group(1) == v["contract"]:
                labs = re.findall(r'obligation="([^"]*)"', l)
                if all(any(x in o["label"] for x in labs) for o in v["obligations"]):
                    m = l
        if m:
            known.append((v, m))
        else:
            rest.append(v)
    for r in allreps:
        d = dict(contract=f"{r.get('run', '')}/{r['name']}", functions=r["functions"], obligations=r["obligations"], discharged=r["discharged"],
                 paths=r.get("paths"), witnessed=r.get("witnessed"), inputs=r.get("inputs"), secs=r.get("secs"), by=r.get("by"))
        if r.get("bounded"):
            d["bound"] = r["bounded"]
            evid["bounded_contracts"].append(d)
        else:
            evid["contracts"].append(d)
        if r.get("labels") and len(samples) < 12:
            samples.append(f"{r['name']}: {r['labels'][0]}")
    edits = None
    try:
        edits = sum(1 for _ in open(f"{BUILD}/sym/factrs/src/EDITS.txt"))
    except OSError:
        pass
    level = plan["level"]
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"VERIF_TIER={tier} VERIF_SEED={SEED} python3 check.py {pid}",
        trusted_base=TRUSTED + plan.get("trusted", []),
        functions_under_contract=functions_sorted(allreps),
        contracts_proved_unbounded=evid["contracts"], contracts_bounded=evid["bounded_contracts"],
        concrete_standins=evid["standins"],
        paths_enumerated=paths, paths_with_numeric_witness=witnessed, prover_facts_revalidated_numerically=validated,
        backends=by, smt_backends=smtby, smt_queries=smt["queries"], solver_seconds=round(smt["secs"], 2), longest_query_seconds=round(smt["longest"], 2),
        extraction_edits=edits, build_seconds=round(build_s, 1), samples=samples, notes=notes,
        explanation=plan.get("explanation", ""),
    )
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=plan.get("assumptions", []) + TRUSTED,
              wall_s=round(time.time() - t0, 2), violations=len(rest))
    if evid["standins"]:
        ev["coverage"]["explanation"] = "PARTLY BOUNDED ON THIS RUN: some contracts were outside the prover's reach on this tree and were only executed on sampled inputs; they are not proved. " + cov["explanation"]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        log("note:", n)
    for v, l in known:
        log(f"KNOWN-FINDING: property={pid} {l.split(' ', 2)[2]}")
    log(f"{pid}: {discharged}/{obligations} obligations discharged, {paths} paths, {len(allreps)} contracts, {time.time() - t0:.1f} s")
    if rest:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        concrete = any(v["replay"] for v in rest)
        for i, v in enumerate(rest):
            path = f"{VERIF}/replays/{pid}-{i}.json"
            with open(path, "w") as f:
                json.dump(dict(property=pid, how="python3 check.py replay " + path, **v), f, indent=1)
            o = v["obligations"][0] if v["obligations"] else {}
            log(f"failed obligation: {v['run']}/{v['contract']}: {o.get('label')} [{o.get('by')}] {str(o.get('detail'))[:400]}")
            if v["replay"]:
                log("  failing input on the real code:", json.dumps(v["replay"])[:1500])
            if concrete and not v["replay"]:
                log(f"  also undischarged, without a failing input of its own: {path}")
                continue
            log(f"VIOLATION property={pid} replay={path}" + ("" if v["replay"] else " no-failing-input-found"))
        return 1
    return 0


def replay(path):
    r = json.load(open(path))
    binname, *feats = r["run"].split("+")
    if not re.match(r"c\d\d", binname):
        log(json.dumps(r, indent=1))
        return 0
    bins, err, _ = build(False, [binname], tuple(feats))
    if bins is None:
        log(err)
        return 1 if r["contract"] == "compiles" else 2
    models = [{k: float(v) for k, v in r["replay"]["inputs"].items()}] if r.get("replay") else [o["model"] for o in r["obligations"] if o.get("model")]
    rr, err = real_run(bins[binname], r["contract"], 0 if r.get("replay") else 20000, models, tight=True, more=(r.get("replay") or {}).get("env"))
    log(json.dumps(rr, indent=1))
    return 1 if any(x["failure"] for x in rr) else 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    lk = open(f"{BUILD}/.lock", "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            bins = sorted({b for p in PLAN.values() for b, f, *_ in p["runs"] if not f})
            for b in (True, False):
                r, err, secs = build(b, bins)
                if r is None:
                    log("setup: build failed\n" + err[-3000:])
                    return 2
                log(f"setup: {'symbolic' if b else 'real'} build {secs:.0f} s")
            for p in PLAN.values():
                for b, f, *_ in p["runs"]:
                    if f:
                        build(True, [b], tuple(f))
            t = time.time()
            kani_run.warm(dict(VERIF=VERIF, REPO=REPO, BUILD=BUILD, ENV=ENV, run=run, write=write, prepare=prepare))
            log(f"setup: bit-precise build {time.time() - t:.0f} s")
            return 0
        if a[0] == "replay":
            return replay(a[1])
        return check(a[0])
    except CheckError as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
