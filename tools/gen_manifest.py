#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present in src/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # technique, what it is decided against
"C01": ("all generator words up to a length", "matrix product of textbook generator matrices (exact rational/Gaussian arithmetic over sqrt-free representations)"),
"C02": ("all bracketings and evaluation routes of all short words", "one canonical list per operator; irreducibility by the algebra's own pair rules"),
"C03": ("all operation histories over pools of polynomials", "reference polynomials (map from monomial to coefficient)"),
"C04": ("all words, splits and pairs of polynomials", "reversal of the word and conjugate transposed matrices"),
"C05": ("all short register histories incl. aliasing and throwing operations", "value-semantics model compared after every step, under ASAN/UBSAN"),
"C06": ("all pairs/triples of exhaustive domains of ordered objects", "documented sort keys"),
"C07": ("all words in 14 parallel index worlds", "equality of the worlds under the relabelling"),
"C08": ("all words, run lengths and coefficient assignments", "reference printer / reference polynomial"),
"C09": ("all words over 10+ user-defined algebras, all bracketings", "faithful matrix representations of the user algebras"),
"C10": ("all words and histories over 11 scalar types", "exact rational model"),
"C11": ("all factory calls over pools of index packs", "documented definition of every factory"),
"C12": ("all insertion orders and register histories of spaces", "layout computed from the set of spaces by the documented order"),
"C13": ("all dimension tuples, nested and huge spaces", "odometer over elementary dimensions"),
"C14": ("all request histories incl. refused ones", "model of the space after each request"),
"C15": ("all monomials/words on all basis states", "textbook matrix action computed per factor"),
"C16": ("all amplitude grids, container pairs and operator histories", "matrix-vector product of the reference matrix"),
"C17": ("all pairs of words/sums and superset spaces", "composition and transposition of full matrices"),
"C18": ("all call histories of parametric operators", "substitution in the coefficients before construction"),
"C19": ("all words x algebra lists x spaces", "set of supported algebras and presence of elementary spaces"),
"C20": ("all operation histories on 14 state vector types", "plain array of amplitudes"),
"C21": ("all spaces and view histories", "position in the reference enumeration"),
"C22": ("all lists, partial maps, operators and compositions", "reference reachability of basis states / plain map"),
"C23": ("all sectors of all small spaces, wide spaces, histories", "enumeration of bit patterns with N bits"),
"C24": ("all assignments of modes to sectors and all particle numbers", "enumeration of bit patterns with the right counts"),
"C25": ("all interleavings under a controlled scheduler; all copy/move histories", "result of the same computation alone on a fresh object; separate free-running thread-sanitizer run of the same bodies"),
"C26": ("all small Hermitian operators on all small spaces", "connected components of the reference matrix"),
"C27": ("all merge histories on small spaces", "least fixed point of forced unions on the reference matrices"),
"C28": ("all operator/partition pairs of small spaces", "set of block pairs read off the reference matrix"),
"C29": ("all operation histories (breadth-first over reachable states)", "set partition model"),
"C30": ("all patterns of a complete small width, shifted and masked, in portable/builtin/BMI2 builds", "bit-by-bit definitions"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isdir(os.path.join(V, "src", i)):
        t, o = T[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="explicit-state model checking of the real code: exhaustive enumeration of " + t + ", against a reference model",
            level="model_checking",
            level_note="Exhaustive within the bounds listed in the evidence file, executed on the real headers rebuilt from /repo under ASAN+UBSAN. Oracle: " + o + ". Trusted: the reference model in /verif/src and the compiler; nothing is claimed outside the bounds."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harnesses drive the public API; schedules are controlled through user-defined state vector / Hilbert space types whose callbacks yield. Genuine defects: known_findings.txt. Design: DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
