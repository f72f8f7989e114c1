"""Writes MANIFEST.json from CHECKS below and the check programs that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: online comparison with an independent reference interpreter"
CHECKS = {
    "P01": ("runtime monitoring: operator values of three back ends compared online with an independent field arithmetic", "Every operator over edge and random operand pairs, all primes; the operand forms force each internal representation. Trusts the independent Python field arithmetic."),
    "P02": (REF, "Generated programs, primes and levels; every signal value compared. Trusts the reference interpreter, written from the documentation."),
    "P03": ("runtime monitoring: emitted constraints evaluated on every output witness", "Every constraint evaluated exactly on each witness of WASM and C++ programs over all flag sets. Trusts only the r1cs and wtns readers."),
    "P04": (REF + " (trace of executed constraints)", "The multiset of normalised constraint polynomials is compared exactly with those the reference run states."),
    "P05": ("runtime monitoring: exact offline check of each simplified system against the projection of the unsimplified one", "Gaussian elimination modulo the prime decides equality of linear parts and of the span of quadratic parts for each run; random and adversarial systems."),
    "P06": ("runtime monitoring: wire order and header of each output checked against main's declarations", "Random main components with arrays and nested buses, public lists, flags."),
    "P07": ("runtime monitoring: normal-form monitor over simplified outputs", "Union-find over the unsimplified equalities and a scan of each simplified system."),
    "P08": ("runtime monitoring: lock-step differential execution of WASM, C++ with assembly and portable C++", "Same program and inputs, outcomes, witnesses and logs compared."),
    "P09": (REF + " (refusals)", "Accepting and refusing inputs at each sanity level, both back ends."),
    "P10": ("runtime monitoring: hostile and valid input objects against an input-specification oracle", "Random input shapes; mutations of valid input objects."),
    "P11": ("compiler sanitizers (address, undefined behaviour) over generated C++ programs", "ASan and UBSan builds of generated programs run on accepted and refused inputs."),
    "P12": ("race detector (ThreadSanitizer) and schedule-perturbed differential runs of parallel programs", "TSan builds with injected delays; outcome compared with the unmarked program."),
    "P13": (REF + " (log trace)", "Printed lines compared with the executed log statements, WASM and C++."),
    "P14": ("runtime monitoring: strict byte-level checker over every r1cs file", "Independent strict reader; counts compared with the printed summary."),
    "P15": (REF + " (symbol table)", "Symbol file compared with the instantiated signal tree."),
    "P16": ("runtime monitoring: offline checker relating JSON exports, r1cs and witnesses", "Exact comparison with r1cs and with the unsimplified system."),
    "P17": ("runtime monitoring: repeated runs under perturbed scheduling, thread counts, directories; artefacts compared byte by byte", "CPU affinity, nice, parallel load and repeated runs."),
    "P18": ("runtime monitoring: differential runs over flag combinations, artefacts compared byte by byte", "Random flag subsets against a single-artefact run."),
    "P19": ("runtime monitoring: crash, hang and verdict-coherence monitor over hostile source texts", "Grammar-based, mutated and byte-level texts; the oracle is the coherence of exit status, messages and artefacts."),
    "P20": ("runtime monitoring: acceptance oracle over pairs of allowed and forbidden programs", "Templates of allowed and forbidden constructs instantiated in random contexts."),
    "P21": ("runtime monitoring: acceptance oracle over pairs of allowed and forbidden programs", "As P20 for assignments."),
    "P22": ("runtime monitoring: acceptance oracle over generated programs with one planted mistake", "As P20 for types and scopes."),
    "P23": (REF + " (expressions printed with minimal and full parentheses)", "Random expressions and literals; constants compared."),
    "P24": ("runtime monitoring: differential compilation of sugared and expanded programs", "Constraints and witnesses compared."),
    "P25": ("runtime monitoring: include resolution against a model of the file system", "Random file trees and library directories."),
    "P26": ("runtime monitoring: acceptance oracle over known-value facts", "Facts true and false in executed and unexecuted places."),
    "P27": ("runtime monitoring: warnings compared with the occurrences of signals in the constraints a generator wrote", "Programs whose constraints are known per instance; warnings, counts, examples and suggestions parsed and compared; artefacts with and without --inspect."),
    "P28": ("runtime monitoring: acceptance oracle over generated tag flows, and comparison with the untagged monomorphic program", "A model of the propagation rules decides per instance which program must be accepted; accepted ones must have the bytes and witnesses of the program written without tags. Whole buses assigned by arrows without constraints and tags set on started buses are left out."),
    "P29": ("runtime monitoring: differential compilation of bus programs and their flattened form; acceptance oracle for types", "Constraints, wires, witnesses and logs compared with those of separate signals; pairs of well and badly typed programs."),
    "P30": ("runtime monitoring: custom gate sections checked against the instances a generator wrote; differential compilation without custom; acceptance oracle", "Applications compared as a multiset by path and wire through the symbol file; constraints identical to (or an exact projection of) those of the same program with ordinary templates."),
    "P31": ("runtime monitoring: metamorphic comparison of generated programs and their rewritings", "Files compared byte by byte, witnesses and logs by value; with anonymous components signals, constraints and interface."),
    "P32": ("runtime monitoring: history checker over one calculator instance and repeated runs", "Random histories of accepted and refused inputs; witness files compared."),
    "P33": ("runtime monitoring: evaluation oracle over random operation histories of the algebra library", "A driver linked with the real crate, with debug assertions and overflow checks; polynomials compared exactly after each call; row spaces of linear systems compared before and after elimination."),
    "P34": ("runtime monitoring: round trip of random writer histories", "A driver linked with the real library; what the reader returns and what an independent parser finds in the bytes compared with what was written."),
    "P35": ("runtime monitoring with fault injection: write limits and unwritable targets at random points, artefacts compared with a complete run", "File size limits, full devices and blocked targets; exit zero must mean complete artefacts."),
}
HOOKS = ["92e6f733f2c047fc13ca8e3a80ed1b6e2d50a982"]
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
            t, n = CHECKS[i]
            checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 checks/%s.py" % i,
                               thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i, technique=t, level="exploration", level_note=n))
        else:
            na.append(dict(property=i, reason="The check for this property is not built yet."))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="vp_hooks (rustc --cfg)", enable="RUSTFLAGS='--cfg vp_hooks' when vlib/harness.py builds /verif/harness/r1cs (P34 only); all other checks build /repo without hooks", source_commits=HOOKS),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not yet")
