"""Write DESIGN.md: the text below, with one section per property from properties.jsonl and the checks themselves."""
import importlib, json, os, re, sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)

NOTES = {
 "P01": "Tests look at results, not at what a question leaves behind; the analysis covers every reachable storage location of every class.",
 "P02": "Effects are a set difference of the whole reachable heap, so a change through an alias or a captured variable is seen too.",
 "P03": "Sharing shows only after a later in-place change of one object; the analysis looks at the storage itself.",
 "P04": "As P03, but for everything reachable, closures included: a closure that reads the original is a shared location.",
 "P05": "The influence table is in checks/p05.py (FEATURES). A parameter is replaced by an independent input; what changes is compared by value number, so it is independent of how the flow is written.",
 "P06": "Labels of position, orientation and angle are followed through data flow; a label in a shape quantity alone is not yet an alarm, the value number for two independent placements has to differ.",
 "P07": "A single missing or doubled module factor breaks homogeneity for every module except 1, and tests use module 1 or loose tolerances. Branches that compare a length with a pure number are found as well.",
 "P08": "Covariance is compositional: the type of a sum or product follows from its operands. Where the domain says 'mixed', the exact term is compared under a moved frame before anything is reported.",
 "P09": "As P08 for the placement computed by mesh_to.",
 "P10": "An angle in the wrong unit is a factor 57; with angle 0, the value most tests use, it is invisible.",
 "P11": "Three arbitrary slices separate 'first', 'middle' and 'last', which coincide with other indices for the two slices tests use.",
 "P12": "Each kernel call, fit and raise is a failure point; the exceptional continuation through handlers and finally blocks is interpreted.",
 "P13": "State of a curve: as created, trimmed, reversed, both. Staleness needs an edit after a query; the order is enumerated by class and edit.",
 "P14": "A conversion of an untrimmed, unreversed curve (what tests do) does not tell an extent that is ignored.",
 "P15": "Segment ends are compared as points for a symbolic profile, cylindrical and conical.",
 "P16": "Normal forms over the rotation group decide the laws for all centres, orientations, scales and angles.",
 "P17": "One recipe class at a time, every entry constant or height dependent, nested recipes.",
 "P18": "Also covers the GUI and the examples, which no test imports.",
 "P19": "Pure class hierarchy comparison, no interpretation.",
 "P20": "Compared with a fresh object that has had the value from the start, so forgotten caches and derived values count.",
 "P21": "Both ways of asking are interpreted with the same symbolic parameters.",
 "P22": "Reference relations are written down independently in checks/p22.py and oracle.py; cycloid radii after adaptation are compared as products with the tooth counts.",
 "P23": "The numeric root search is replaced by its contract: the function given to it vanishes at the result. Everything else is term comparison.",
 "P24": "Conditions of rolling pitch surfaces, for arbitrary partner placement, cone, helix, tooth counts. Directions oblique to the axis are not part of the statement.",
 "P25": "Defining relations of the curves as identities in all parameters. Array-valued helpers (Bezier coefficient arrays, coordinate transforms of point lists) are outside: the engine does not model new axes of arrays of unknown length.",
 "P26": "Provenance of kernel objects: each carries the constructor or operation and the objects it came from, so the finished body is a tree whose leaves are patches, splines, circles and spheres. Which of the pieces the kernel returns from a split is kept is decided by measured volumes and positions and is outside. Tooth counts are concrete (5 and 7; 4, 5, 7 thorough), everything else is symbolic.",
}

def main():
    props = [json.loads(l) for l in open(R + "/properties.jsonl")]
    man = json.load(open(R + "/MANIFEST.json"))
    na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man["not_applicable"]}
    out = [open(R + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
    for p in props:
        i = p["id"]
        out.append("### %s %s" % (i, p["title"]))
        out.append("")
        if i in na:
            out.append("Not applicable: %s" % na[i])
            out.append("")
            continue
        m = importlib.import_module("checks.p%s" % i[1:])
        q, t = len(m.scenarios("quick")), len(m.scenarios("thorough"))
        out.append("*How*: %s." % m.EXPLAIN)
        out.append("")
        out.append("*Rules*: %s." % m.RULE)
        out.append("")
        out.append("*Assumes*: %s." % "; ".join(m.ASSUME))
        out.append("")
        out.append("*Bounds*: %d scenarios (class, option and pairing combinations) quick, %d thorough; inside a scenario all numbers are symbolic. %s" % (q, t, NOTES.get(i, "")))
        out.append("")
    out.append(open(R + "/tools/design_tail.md").read().rstrip())
    open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")

main()
