"""What each property's check runs, and what it trusts."""
TRUSTED = [
    "floating point treated as mathematics: every f64 operation is interpreted as the exact real operation (rounding, overflow and NaN propagation are not modelled); literals denote the simplest rational that rounds to them",
    "the extraction (engine/extract): token-level, line-preserving rewriting of float literals, f64, casts to dtype; listed in build/sym/factrs/src/EDITS.txt on every run",
    "the verification-condition generator (engine/symnum): real arithmetic normaliser, path enumeration, axioms for sqrt, sin, cos, atan2, ln, exp; every discharged obligation is re-evaluated numerically on witnesses of its path",
    "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (unsat answers); rustc 1.85.1",
    "nalgebra, num-dual, simba and faer are executed as they are, over symbolic reals (their generic code is part of the verified text, their f64-specialised code paths are not)",
]
PLAN = {
    "C01": dict(level="proof", runs=[("c01", [])]),
    "C02": dict(level="proof", runs=[("c02", [])]),
    "C03": dict(level="proof", runs=[("c03", []), ("c03", ["left"], "define,minus,inverse,se2_back,so2_back"), ("c03", ["fake_exp"], "se2,se3")]),
    "C04": dict(level="proof", runs=[("c04", [])]),
    "C05": dict(level="proof", runs=[("c05", []), ("c05", ["left"])]),
    "C06": dict(level="proof", runs=[("c06", []), ("c06", ["left"])]),
    "C07": dict(level="proof", runs=[("c07", [])]),
    "C08": dict(level="proof", runs=[("c08", [])]),
    "C09": dict(level="proof", runs=[("c09", []), ("c09", ["left"])]),
    "C10": dict(level="other", runs=[("c10", [])]),
    "C11": dict(level="other", runs=[("c11", [])]),
    "C12": dict(level="other", runs=[("c12", [])]),
    "C13": dict(level="proof", runs=[("c13", [])], extra=["kani_c13"], trusted=["Kani 0.68.0, CBMC 6 and its SAT back end (bit-precise: no arithmetic is idealised in these contracts)"]),
    "C14": dict(level="other", runs=[("c14", [])]),
    "C15": dict(level="other", runs=[("c15", [])]),
    "C16": dict(level="other", runs=[("c16", [])]),
    "C17": dict(level="proof", runs=[("c17", ["verif"]), ("c17", ["verif", "left"], "none,first,third,step,predict,factor")]),
    "C18": dict(level="other", runs=[("c18", [])]),
    "C19": dict(level="proof", runs=[("c19", []), ("c19", ["left"])]),
    "C20": dict(level="proof", runs=[("c20", [])], compiles="c09"),
    "C21": dict(level="proof", runs=[("c21", ["rerun"])], trusted=["the rerun SDK is an assumed contract (engine/rerun): constructors keep what they are given, a recording stream records what is logged; the narrowing to f32 is treated as exact"]),
}
from kani_run import EXTRA  # noqa: E402,F401
