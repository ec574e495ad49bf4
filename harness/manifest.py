"""Writes MANIFEST.json: python3 harness/manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "TLA+ specification checked with TLC; TLC as oracle for replayed cases"
MACHINE = "TLA+ state machine checked with TLC; its behaviours replayed into the code"
TRACE = "TLA+ specification; recorded traces of the code validated by TLC"
CHECKS = {
    "C01": (MACHINE, "QpEval exhausts the small arrangements of the values, and gives larger ones by simulation; each replayed with all families against single distributions at single values"),
    "C02": (MACHINE, "MCSelect enumerates every key for up to 4 distributions, QpEnsemble the behaviours; both replayed with all 15 families of representations"),
    "C03": (MACHINE, "QpEnsemble explored exhaustively for small constants; simulated behaviours replayed with all families, alternate constructors and mismatches"),
    "C04": (MACHINE, "QpEnsemble with files explored exhaustively; simulated behaviours replayed with real files in five formats sharing base names, all families"),
    "C05": (TRACE, "QpChunks exhausts the interleavings of reading with all ranks and sizes; recorded iterations of the code validated against it and replayed from it"),
    "C06": (MACHINE, "QpChunks exhausts the orders of writing; behaviours replayed with all families and real files"),
    "C07": (MACHINE, "QpEnsemble with named collections explored exhaustively; simulated behaviours replayed with mixtures of families"),
    "C08": (MACHINE, "QpEnsemble with updates, refusals, cached grids and queries; every live ensemble compared after every step"),
    "C09": (ORACLE, "MCDist exhausts small histograms; seeded lattice cases of TLC's rational oracle, mapped to seven scales, replayed"),
    "C10": (ORACLE, "MCDist exhausts small interpolated densities; seeded lattice cases of the rational oracle replayed on common and per-row grids"),
    "C11": (ORACLE, "MCDist exhausts small quantile sets; seeded cases of the rational oracle replayed with all four reconstructions"),
    "C12": (ORACLE, "weighted sums evaluated by TLC at 1e-7 from component values computed independently; ppf judged against one grid cell"),
    "C13": (ORACLE, "MCCode exhausts the codecs; the bytes TLC allows for seeded densities compared with those of the code, packed ensembles with the unpacked values, also from files"),
    "C14": (MACHINE, "QpSparse exhausts the column swaps of the encoder, QpPursuit the selection, code and decoding of one density (three defective models refuted); behaviours replayed with dictionaries of separate and of overlapping atoms; codes decoded by TLC against the code's densities"),
    "C16": (MACHINE, "QpConvert explored exhaustively for small constants; chains of conversions replayed with all families; rational oracle for lattice sources"),
    "C17": (MACHINE, "QpMetrics exhausts partitions, workers and orders for small data; behaviours replayed with every metric that accumulates, values bounded by the rational definitions of QpStat"),
    "C18": (ORACLE, "seeded histograms and grids with the rational definitions of QpStat; all families against the sums of their pdf values and each distribution alone"),
    "C19": (ORACLE, "seeded samples, references and truths with the rational definitions of QpStat; all families with drawn samples"),
    "C20": (ORACLE, "seeded residuals with ties, outliers and values at the cut, with the rational definitions of QpStat"),
    "C21": (MACHINE, "QpFactory and QpMetricReg explored exhaustively for small constants; behaviours replayed with new classes in fresh and global registries; every class, wrapped distribution and metric looked up in all ways"),
    "C22": (MACHINE, "QpSample explored exhaustively for small constants; drawing from seeds and generator objects replayed with all families, samples compared with the ppf of the deviates row by row; wrapped distributions by support and distribution"),
    "C23": (TRACE, "MCCoherence shows that the clauses accept exact laws and reject corrupted ones; tables recorded from all families are judged by TLC clause by clause"),
    "C24": (MACHINE, "QpPlot (axes, limits, current axes, requests) explored exhaustively for small constants, three defective models refuted; behaviours replayed with matplotlib for all families, everything on all axes compared after each step"),
    "C25": (MACHINE, "QpEnsemble with making again from tables, class, create and copies, explored exhaustively, two defective models refuted; behaviours replayed with all families, every live ensemble compared after every step"),
    "C26": (ORACLE, "seeded tables, queries and profiles evaluated exactly by TLC (QpTable), asked in every arrangement, spacing and scale"),
    "C15": (ORACLE, "polynomial pdf and cdf evaluated exactly by TLC; kernel estimates compared with scipy's"),
}
NOT_YET = {}


def main():
    """Write the file"""
    checks = []
    for prop, (tech, note) in sorted(CHECKS.items()):
        checks.append(
            dict(
                property=prop,
                quick_cmd="./check %s quick" % prop,
                thorough_cmd="./check %s thorough" % prop,
                evidence_file="evidence/%s.json" % prop,
                technique=tech,
                level="model_checking",
                level_note=note,
            )
        )
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    missing = [dict(property=i, reason=NOT_YET.get(i, "check still being built")) for i in ids if i not in CHECKS]
    out = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=missing)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fout:
        json.dump(out, fout, indent=1)
        fout.write("\n")


if __name__ == "__main__":
    main()
