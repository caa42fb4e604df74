"""Writes MANIFEST.json: which property has which check, and how it is decided."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = "TLC validates recorded runs of the real program, line by line, as behaviours of spec/Ripcalc.tla"
REL = "TLC relates groups of runs with spec/Relate.tla"
COMMON = ("Every run is judged by TLC against the specification, none by the harness. Inputs are those of the bounded models' behaviours, "
          "embedded at full width, plus seeded generation at full width: inputs not generated are not covered. Trusted: TLC, the "
          "specification, the recording of arguments, output lines and exit status.")
BY = {
 "C01": ("model checking of the report's facts (spec/MC_Facts.tla) and trace validation", "MC_Facts decides all networks of 4 bits (thorough: 6)."),
 "C02": ("model checking of the parser of masks (spec/MC_Text.tla), trace validation of every notation, and equality of runs the specification plans alike", "All prefix lengths of both families are covered in every notation."),
 "C03": ("model checking of the parsers (spec/MC_Text.tla) and trace validation of refusals against the specification's grammar", "The grammar decides what is malformed; mutated and enumerated texts."),
 "C04": ("model checking of the argument handling (spec/MC_Modes.tla), of the arithmetic on halves (spec/AP_Halves.tla, Apalache) and trace validation of exits over all modes at the edges of the address space", "Debug build with overflow checks; thorough also the release build."),
 "C05": ("model checking of the parser and printer (spec/MC_Text.tla), trace validation of reading and printing", "All zero patterns of eight groups and all shortenings are covered."),
 "C06": ("model checking of the merging algorithm (spec/MC_Minimize.tla) and trace validation with a cover decision", "All sets of 3-bit CIDR networks (thorough), all pairs (thorough: triples) of 3-bit lopsided ones."),
 "C07": ("model checking of the merging algorithm (spec/MC_Minimize.tla), trace validation, equality of permuted runs", "As C06; minimality by the unmergeable normal form, which the model checks against shortest covers."),
 "C08": ("model checking of the range algorithm (spec/MC_Derange.tla) and trace validation", "All ranges of 4 bits (thorough: 5)."),
 "C09": ("model checking of the range algorithm against shortest covers (spec/MC_Derange.tla) and trace validation", "The model proves at its bound that the locally largest networks are the fewest."),
 "C10": ("model checking of the allocation (spec/MC_Split.tla) and trace validation", "All request lists up to the bound on 3-bit (thorough: 4-bit) networks."),
 "C11": ("model checking of the remainder (spec/MC_Split.tla) and trace validation with a cover decision", "As C10."),
 "C12": ("model checking of resizing (spec/MC_Resize.tla) and trace validation", "All pairs of networks and masks of 3 (thorough: 4) bits."),
 "C13": ("model checking of resizing (spec/MC_Resize.tla) and trace validation", "All pairs of networks and masks of 3 (thorough: 4) bits."),
 "C14": ("model checking of the successor algorithm (spec/MC_Enumerate.tla) and trace validation", "All networks of 3 bits (thorough: pairs)."),
 "C15": ("trace validation of the report's lines", "Every line is compared as text."),
 "C16": ("model checking of the class naming (spec/MC_Report.tla) and trace validation of the class named", "All 32 leading address bits x 32 leading mask bits are covered."),
 "C17": ("model checking of the colouring (spec/MC_Report.tla), trace validation of coloured runs, equality with uncoloured runs", "Forced colours, and a pseudo-terminal with and without colours."),
 "C18": ("model checking of the argument handling (spec/MC_Modes.tla), trace validation of option dispatch, equality of both forms of an option", "All options with 0 to 4 operands."),
 "C19": ("model checking of all sequences of modes (spec/MC_Chain.tla) and trace validation of chained runs as behaviours of spec/Relate.tla", "All sequences of two (thorough: three) modes on up to two 3-bit networks; chains of up to four runs at full width."),
 "C20": ("model checking of the argument handling (spec/MC_Modes.tla), whose transitions are functions of the arguments, and equality of repeated runs in varied surroundings", "Nine surroundings: environment, directory, kind and contents of standard input, kind of standard output, program name, terminal size; further ones made for what the program is seen to ask for."),
}
checks = [{
    "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
    "evidence_file": "evidence/%s.json" % p, "technique": "TLA+/TLC: " + t, "level": "model_checking",
    "level_note": n + " " + COMMON} for p, (t, n) in BY.items()]
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": [],
               "notes": "No hooks: the program is observed from outside. Written by harness/manifest.py."}, f, indent=1)
    f.write("\n")
