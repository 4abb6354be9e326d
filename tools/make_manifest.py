#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module pv/<id>.py is claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTES = {}
TECH = "property-based testing: seeded Hypothesis search over generated {} against {}, with shrinking to a replay file"
WHAT = {
    "C01": ("machines and operation sequences", "isolation invariants over snapshots and object identities"),
    "C02": ("machines and observer calls", "before/after snapshots and a repeated call with the same random state"),
    "C03": ("registration histories", "a reference model of the books (model-based)"),
    "C04": ("machines, uncertainties and seeds", "truncation bounds, exact zero, re-run and pooled distribution checks"),
    "C05": ("magnets and histories", "an independent field model"),
    "C06": ("histories of set operations", "a reference model of setpoints and limits (model-based)"),
    "C07": ("histories of cavity settings", "a reference model of setpoints and errors (model-based)"),
    "C08": ("support structures", "an independent interpolation model"),
    "C09": ("misalignments and elements", "the exact rigid-body ray transformation, linearised by complex step"),
    "C10": ("machines, modes, losses and errors", "an independent BPM model on independently tracked beams"),
    "C11": ("injections and sigma matrices", "statistical and algebraic invariants of the bunch"),
    "C12": ("machines with apertures", "independent tracking of the same bunch"),
    "C13": ("lattices, modes and cavities", "independently computed derivatives (central differences)"),
    "C14": ("machines", "an independent construction of the model and snapshots"),
    "C15": ("machines, modes and steps", "readings measured independently and linear-machine algebra"),
    "C16": ("machines and reachable references", "a constructed solution and post-condition checks"),
    "C17": ("machines with apertures and errors", "post-conditions evaluated independently and isolation snapshots"),
    "C18": ("machines with offset magnets", "true magnetic centres and an outlier model"),
    "C19": ("machines with rf errors", "energy-gain and synchronism post-conditions, exact algebra on the fits"),
    "C20": ("machines, grids and targets", "a model of the scan and merit post-conditions"),
    "C21": ("matrices and options", "an independent SVD filter and the Moore-Penrose conditions"),
    "C22": ("data, weights, axes and missing values", "textbook definitions and metamorphic relations"),
    "C23": ("lattices, circumferences", "exact lengths and snapshots"),
    "C24": ("magnets, tables and histories", "an independent multipole model"),
    "C25": ("lattices and switch sequences", "a model of the pass methods and snapshots"),
    "C26": ("machines and injections", "a straight-line model and merit post-conditions"),
    "C27": ("machines, parameters and data", "finite differences and linear-algebra solutions"),
    "C28": ("wrapper calls", "the native call on an identical machine (differential)"),
    "C29": ("shapes, cutoffs, names, operations", "definitions and a dictionary model"),
    "C30": ("machines, selections and fit results", "independent readings and error cancellation by exact fits"),
    "C31": ("machines, selections and results to draw", "the drawn data against the machine, and calls without plot (metamorphic)"),
    "C32": ("rings, apertures, directions and bounds", "independent tracking on both sides of every limit"),
    "C33": ("machines and injected inconsistencies", "the list of faults derived from the generated machine"),
}


def main():
    checks, rest = [], []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        props = [json.loads(line) for line in f]
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "pv", pid.lower() + ".py")):
            checks.append(dict(property=pid, quick_cmd=f"{PY} run.py {pid} --tier quick", thorough_cmd=f"{PY} run.py {pid} --tier thorough",
                               technique=TECH.format(*WHAT[pid]), level="exploration",
                               level_note="Generated-input search within the bounds given in DESIGN.md; the evidence file counts cases, distinct non-trivial cases and labels per facet."))
        else:
            rest.append(dict(property=pid, reason="No check built yet."))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd=f"{PY} -c \"import at, numpy, scipy, matplotlib\"", checks=checks, not_applicable=rest), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
