"""Writes MANIFEST.json from the properties that have a module in vt/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "generated coefficients and grids; oracle: independent Legendre-recurrence synthesis",
 "C02": "generated samples; oracle: exact projection integrals of the DFT-matrix interpolant",
 "C03": "round-trip property over generated coefficients, grids and requested sizes",
 "C04": "generated coefficients; oracle: independent vector-harmonic synthesis",
 "C05": "generated samples; oracle: exact vector projection integrals",
 "C06": "round-trip property with leakage checks over generated vector coefficients",
 "C07": "differential fuzzing, native against pure Python, public and low level",
 "C08": "metamorphic relations (linearity, rotation, conjugation, reflection, refinement)",
 "C09": "generated coefficients; invariants and exact quadrature as oracle",
 "C10": "stateful model-based testing against a dict model",
 "C11": "generated operands of every kind; oracle: the operation on the modes",
 "C12": "generated operands of every kind; oracle: the operation on the samples",
 "C13": "generated samples and symmetry-breaking mutations; oracle: continuation rule",
 "C14": "generated arguments; oracle: direct construction, statistics, seed replay",
 "C15": "generated objects; oracle: definitions computed independently; metamorphic scaling",
 "C16": "round-trip property through scratch files over generated finite doubles",
 "C17": "grammar-based file generation and independent parsing of written files",
 "C18": "generated consistent files with injected discrepancies; oracle: own norms",
 "C19": "generated orders and arguments; oracle: high-precision recurrences",
 "C20": "generated degree, order, grid; oracle: independent harmonics; round trip",
 "C21": "exhaustive boundary enumeration plus generated sizes; oracle: the documented limits",
 "C22": "fuzzing under ASan/UBSan/MSan, allocation accounting over generated call sequences",
 "C23": "generated band-limited Fourier data; oracle: trigonometric sums",
 "C24": "generated coefficients; oracle: own placement, parsing the printed text back",
 "C25": "generated data; the drawn artists' data is compared with the definition",
 "C26": "stateful op sequences with snapshots, replayed in other orders and processes",
 "C29": "generated process environments and operations, results compared across environments (differential)",
 "C28": "generated thread schedules over generated operations, results compared with those alone",
 "C27": "generated high-degree coefficients; oracle: recurrence synthesis and round trip",
}
NOTE = ("Generated-input search with a fixed seed, fixed boundary cases first; "
        "holds on everything generated, within the bounds DESIGN.md lists for "
        "this property; trusts numpy, the compiler and the reference model in "
        "vt/oracle.py, which does not import spherepy.")


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        pid = json.loads(line)["id"]
        if os.path.exists(os.path.join(HERE, "vt", "props",
                                       pid.lower() + ".py")):
            cmd = "/opt/venv/bin/python vt/run.py %s" % pid
            checks.append({"property": pid, "quick_cmd": cmd,
                           "thorough_cmd": cmd + " --tier thorough",
                           "evidence_file": "evidence/%s.json" % pid,
                           "technique": "property-based testing: " + TECH[pid],
                           "level": "exploration", "level_note": NOTE})
        else:
            na.append({"property": pid, "reason": "its check is not built yet"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python vt/setup_check.py",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks: every check observes the unmodified library. "
                  "Each check compiles /repo/src into a scratch directory and "
                  "imports /repo/spherepy with that extension."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
