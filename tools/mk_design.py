#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, one section per property (bounds from the check modules), the seeded-bug table."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
sys.path.insert(0, os.path.join(V, "tools"))
ORACLE = {
 "P01": "An evaluator over the same expression tree in numpy (numbers count as uniform values, real/complex promotion); after each evaluation the operands are evaluated again and must be unchanged.",
 "P02": "The chain of coordinate substitutions applied in numpy to the closed form of the base profile.",
 "P03": "A record of current parameter values; after every step each object must equal a freshly constructed object / closed form with these values, and the getters must return them. The interesting state is the per-object trace cache: values captured at trace time only show in particular assign/evaluate orders, which the tours contain all of.",
 "P04": "Closed forms with scipy polynomials in double precision, with a forward error bound per point (cancellation of the polynomial).",
 "P05": "Exact rational Zernike radial polynomials (Python integers); the index map against the enumeration generated row by row in integers.",
 "P06": "Double-precision projection: mean over aperture pixels of map times term.",
 "P07": "The coordinate formulas; in the histories every returned array is overwritten after the query, so that a shared cache shows.",
 "P08": "Closed forms at the grid's positions / the array itself, shape and element type.",
 "P09": "Direct Fourier sums over all mirrors at the published coordinates (no FFT, no shift).",
 "P10": "Sums of the reference intensities; Parseval, padding invariance and energy bounds as invariants.",
 "P11": "A model of two simulations as (last input, state at that time, blocking radii); everything of both is read after every operation.",
 "P12": "Reference Lee hologram from a direct DFT of the target; eta is decided by physics: the first order is isolated by simulating four grating phase steps and compared with eta/4 times the target.",
 "P13": "The threshold rule with the explorer's own draws: for each pixel just below and just above its probability, in every combination.",
 "P14": "A double-precision ifta that tracks for every pixel and iteration whether the decision is numerically certain.",
 "P15": "The alternating projections in double precision from the explorer's start phase, plus the monotone mismatch as seen through the simulator.",
 "P16": "The published MRAF iteration from the explorer's start; the half-mixing identity with gs as metamorphic check.",
 "P17": "A frame model per device (value, gray or Boolean, known or not); pixels outside a patch must be bit-identical to before.",
 "P18": "Bit-by-bit packing in plain Python, unpacked back.",
 "P19": "A latch automaton (free / fixed at 32 / fixed at 64) with the public entry points as first uses, each word on a freshly imported package.",
 "P20": "The engine-independent references of P09, P12, P14, P15 and P16 for every computation.",
 "P21": "The simulated Vialux device: after each operation the mirrors must show the last loaded frame(s), advanced by the trigger edges since then.",
 "P22": "The simulated Visitech device executing the uploaded sequencer program, likewise.",
 "P23": "Fault injection on the simulators; after the fault the controller must be usable again, must not report initialized when it is not, and a following successful load must show its frames.",
 "P24": "An undisturbed execution of the same operations; every array handed in or out is overwritten in turn and must influence nothing else.",
 "P25": "Decimal notation drawn with an independent text renderer; distinctness of all images of one frame size.",
 "P26": "The single-spot physics: where the requested order, the undiffracted light and the conjugate order fall, computed by direct sums.",
 "P27": "Snapshots of everything observable before the refused call, compared after it; then the next valid call against its reference.",
 "P28": "The value of every point sampled alone (itself checked once against the closed forms of ref.py).",
 "P30": "The references of P04, P07, P09-P16 (closed forms, direct Fourier sums, Lee hologram, iterations), evaluated once in the original units and amplitudes and multiplied by the exact factor.",
 "P31": "Each computation's own results when it runs alone in a thread (whose values the other properties decide).",
 "P32": "The same call with every argument spelled out by name at the documented value (whose meaning the other properties decide).",
 "P33": "The same computation in plain surroundings (whose values the other properties decide), and the snapshot of all settings before it.",
 "P34": "A first execution of the same program in a fresh process (whose values the other properties decide).",
 "P35": "The formulas of the user-defined classes in numpy, the built-in class with the same parameters, and the life cycle of a controller.",
 "P29": "The reference iterations of lcosref.py per device, carried through the history; beam times exp(i phase) and direct Fourier sums for the simulations.",
}


def load(pid):
    spec = importlib.util.spec_from_file_location(pid, os.path.join(V, "mc", "props", pid.lower() + ".py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m


def main():
    out = open(os.path.join(V, "tools", "design_head.md")).read().rstrip("\n") + "\n\n## Properties\n"
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        m = load(p["id"])
        ev = os.path.join(V, "evidence", p["id"] + ".json")
        out += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        out += "* Method: %s.\n* Enumerated (quick): %s.\n* Thorough adds: %s.\n" % (m.TECHNIQUE, m.BOUNDS["quick"], m.BOUNDS["thorough"])
        out += "* Oracle: %s\n* State, transition: %s.\n" % (ORACLE.get(p["id"], ""), m.RULE)
        for a in getattr(m, "ASSUMPTIONS", ()):
            out += "* Assumption: %s.\n" % a
        out += "* Why tests cannot: %s.\n" % p["why_tests_cant"]
        if os.path.exists(ev):
            e = json.load(open(ev)); c = e["coverage"]
            if e["tier"] == "quick" and not e["violations"]:
                out += "* Cost of the quick check when last recorded: %d s on 8 cores; %d states, %d transitions, %d executions, %d comparisons.\n" % (round(e["wall_s"]), c["states"], c["transitions"], c["traces_validated_against_impl"], c["evaluations"])
    tail = os.path.join(V, "tools", "design_tail.md")
    out += "\n" + open(tail).read()
    out += "\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        me = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        out += "| %s | %s | %s | %s |\n" % (d, me["property"], me["needs"], caught.get(d, "not run"))
    open(os.path.join(V, "DESIGN.md"), "w").write(out)


main()
