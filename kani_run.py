"""Bit-precise contracts, discharged by Kani (CBMC, CaDiCaL) against the unmodified crate."""
import os, re


def crate(ctx):
    ctx["prepare"](False)
    d = f"{ctx['BUILD']}/kani"
    ctx["write"](f"{d}/Cargo.toml", f"""[package]
name = "factrs_kani"
version = "0.1.0"
edition = "2021"
[dependencies]
factrs = {{ path = "../real/factrs" }}
paste = "*"
[workspace]
[lints.rust]
unexpected_cfgs = {{ level = "allow", check-cfg = ['cfg(kani)'] }}
""")
    ctx["write"](f"{d}/src/lib.rs", open(f"{ctx['VERIF']}/kani/lib.rs").read())
    lock = open(f"{ctx['REPO']}/Cargo.lock", "rb").read()
    seen = f"{d}/.lock.repo"
    if not (os.path.exists(seen) and open(seen, "rb").read() == lock and os.path.exists(f"{d}/Cargo.lock")):
        ctx["write"](f"{d}/Cargo.lock", lock)
        ctx["write"](seen, lock)
    return d


def env(ctx):
    e = dict(ctx["ENV"], CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{ctx['BUILD']}/kani-target")
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def parse(out):
    res, cur = {}, None
    for l in out.splitlines():
        m = re.match(r"Checking harness (?:\w+::)*(\w+)\.\.\.", l.strip())
        if m:
            cur = res.setdefault(m.group(1), dict(status=None, failed=[], checks=0, secs=0.0))
        if cur is None:
            continue
        m = re.match(r"Failed Checks?: (.*)", l.strip())
        if m:
            cur["failed"].append(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) failed", l)
        if m:
            cur["checks"] = int(m.group(2))
            cur["nfail"] = int(m.group(1))
        m = re.match(r"VERIFICATION:- (\w+)", l.strip())
        if m:
            cur["status"] = m.group(1)
        m = re.match(r"Verification Time: ([\d.]+)s", l.strip())
        if m:
            cur["secs"] = float(m.group(1))
    return res


def playback(out):
    """byte vectors of the concrete playback tests, per harness"""
    res = {}
    for m in re.finditer(r"fn kani_concrete_playback_(\w+?)_\d+\(\) \{(.*?)\n\s*\}", out, re.S):
        vs = [bytes(int(x) for x in re.findall(r"\d+", v)) for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(2))]
        res.setdefault(m.group(1), [int.from_bytes(v, "little") for v in vs if v])
    return res


def kani(ctx, prefix, functions, timeout=420):
    d = crate(ctx)
    names = re.findall(r"fn (%s\w+)\(\)" % prefix, open(f"{d}/src/lib.rs").read())
    rc, out, err, secs = ctx["run"](["cargo", "kani", "--output-format", "terse"] + sum([["--harness", n] for n in names], []), cwd=d, env=env(ctx), timeout=timeout)
    res = parse(out)
    text = open(f"{d}/src/lib.rs").read()
    r = dict(obligations=0, discharged=0, by={}, reports=[], violations=[], notes=[])
    if not res:
        r["notes"].append("kani gave no answer (the executable contracts stand in): " + (err or out)[-600:])
        return r, [], d
    bad = []
    for n in names:
        v = res.get(n)
        own = [f for f in (v or {}).get("failed", []) if f'"{f}"' in text]
        panics = [f for f in (v or {}).get("failed", []) if f not in own and not re.search(r"unwinding|unsupported|is not currently supported|recursion", f)]
        if v is None or v["status"] is None:
            r["notes"].append(f"kani/{n}: no answer (the executable contracts stand in)")
            continue
        checks = max(v["checks"], 1)
        rep = dict(run="kani", name=n, functions=functions, obligations=checks, discharged=checks, secs=v["secs"], by={"kani (CBMC)": checks}, paths=None)
        if v["status"] == "SUCCESSFUL":
            pass
        elif own or panics:
            rep["discharged"] = checks - max(1, v.get("nfail", 1))
            bad.append((n, own + panics))
        else:
            rep["discharged"] = 0
            r["notes"].append(f"kani/{n}: undecided within the unwinding bound ({'; '.join(v['failed'])[:300]}); the executable contracts stand in")
        rep["by"] = {"kani (CBMC)": rep["discharged"]}
        r["reports"].append(rep)
        r["obligations"] += rep["obligations"]
        r["discharged"] += rep["discharged"]
        r["by"]["kani (CBMC)"] = r["by"].get("kani (CBMC)", 0) + rep["discharged"]
    return r, bad, d


def c13(ctx):
    r, bad, d = kani(ctx, "c13_", "DefaultSymbol::new, From<DefaultSymbol> for Key, From<Key> for DefaultSymbol, Debug for DefaultSymbol, Symbol for Key, factrs::symbols::{A..Z}")
    for n, failed in bad:
        rc, out, err, _ = ctx["run"](["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback", "print", "--harness", n], cwd=d, env=env(ctx), timeout=200)
        vals = playback(out).get(n, [])
        pos = {"c13_round_trip": ["c", "i"], "c13_injective": ["c", "i", "d", "j"], "c13_key": ["i"], "c13_typed": ["i"], "c13_text_char": ["c"], "c13_text_index": ["i"]}.get(n, [])
        got = dict(zip(pos, vals))
        inp = ",".join(str(got.get(k, {"c": 120, "i": 7, "d": 121, "j": 8}[k])) for k in "cidj")
        hit = None
        bins, berr, _ = ctx["build"](False, ["c13"], ())
        if bins:
            hit = ctx["real"](bins["c13"], "given", {"C13_INPUT": inp})
            if hit:
                hit["env"] = {"C13_INPUT": inp}
        r["violations"].append(dict(run="c13" if hit else "kani", contract="given" if hit else n, functions="DefaultSymbol, Key, factrs::symbols",
                                    obligations=[dict(label=f"{n}: {f}", kind="assertion", by="kani (CBMC)", detail="symbol pair (character, index, character, index) = " + inp, model=None) for f in failed], replay=hit))
    return r


def warm(ctx):
    d = crate(ctx)
    ctx["run"](["cargo", "kani", "--only-codegen"], cwd=d, env=env(ctx), timeout=600)


EXTRA = {"kani_c13": c13}
