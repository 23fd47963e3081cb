"""Writes MANIFEST.json."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENC = ("Generated-input search against an independent encoder of MS-SHLLINK (round trip: description -> bytes -> "
       "report), exhaustive for small value spaces. ")
TRUST = "Trusts pbt/build.py and pbt/tables.py as the reading of the specification."
CHECKS = {
    "C01": ("structured mutation fuzzing, damage injection, Atheris (thorough), with a crash/refusal/cost oracle",
            "No crash, hang or wrong refusal on any generated, damaged or mutated file; work bounded linearly on part of the cases. Unbounded input space: sampled."),
    "C02": ("property-based testing against a header encoder, exhaustive sweeps of flags, hot keys, window styles",
            ENC + TRUST),
    "C03": ("property-based testing against an exact date model, boundary sweeps", ENC + "Tolerance of the double arithmetic as stated in the property."),
    "C04": ("property-based testing against an ID list encoder, all 256 type bytes", ENC + TRUST),
    "C05": ("property-based testing against a shell item encoder, metamorphic neighbourhood check", ENC + TRUST),
    "C06": ("property-based testing against a LinkInfo encoder with permuted layouts", ENC + TRUST),
    "C07": ("property-based testing against a LinkInfo encoder with permuted layouts", ENC + TRUST),
    "C08": ("property-based testing against a string encoder, boundary lengths exhaustively", ENC + TRUST),
    "C09": ("property-based testing against block encoders, order permutations", ENC + TRUST),
    "C10": ("property-based testing against a property store encoder", ENC + TRUST),
    "C11": ("property-based testing against GUID and packed-UUID encoders", ENC + TRUST),
    "C12": ("property-based testing against block encoders and SHA-256", ENC + TRUST),
    "C13": ("property-based testing, metamorphic walk over concatenated files", ENC + TRUST),
    "C14": ("property-based testing against a decoding model, all byte values per code page", ENC + "Python's codecs are trusted."),
    "C15": ("metamorphic property-based testing: prefixes against the full file", "Every section inside the prefix is compared; every prefix of the swept files."),
    "C16": ("metamorphic property-based testing: damage confined to one section", "All other sections are compared, at generated and swept positions."),
    "C17": ("stateful property-based testing: call histories against first calls in pristine processes", "Histories of up to 16 steps; all ordered pairs of outputs."),
    "C18": ("metamorphic property-based testing: reduced report against full report", "The removed entries are typed in from the documented behaviour."),
    "C19": ("property-based round trip through JSON and YAML parsers, differential CLI against API", "PyYAML's loader and Python's json module are trusted."),
    "C20": ("property-based round trip through a Windows command-line parser, exhaustive small paths", "The argument parser is typed in from the Microsoft C runtime rules."),
    "C21": ("property-based testing of warnings: clean files and injected single deviations", ENC + TRUST),
    "C22": ("property-based testing against the encoder, all 512 section flag combinations", ENC + TRUST),
    "C23": ("differential property-based testing across process environments (time zone, hash seed, locale, -O, clock, "
            "variables, file names)",
            "Each case in two of 21 environments and in the reference one. Only the C locales are installed here."),
    "C24": ("property-based testing of thread schedules: generated deterministic interleavings against serial runs",
            "Schedules of 2-3 threads at line and bytecode granularity, sampled."),
    "C25": ("fuzzing of damaged files against a typed schema and self-consistency invariants",
            "Every entry of every report; schema and tables typed in independently."),
    "C26": ("fuzzing under an audit hook and recording stand-ins, process settings compared before and after, handles "
            "differentially against bytes",
            "Effects are seen through the interpreter's audit events, os look-ups, descriptors and settings."),
    "C27": ("property-based testing of long histories: growth of traced memory over rounds of generated links",
            "200 links per batch; growth above 130 bytes per link over three successive rounds."),
    "C28": ("property-based differential testing of accessors and constructors against report and stored bits",
            "All 512 flag combinations; 12 ways to construct."),
    "C29": ("metamorphic property-based testing: every value of a prefix's report looked up in the whole file's report",
            "Every prefix of swept files, borders of large ones; the whole file's own report is judged by the other checks."),
    "C30": ("property-based differential testing of the command line against the API, with faults",
            "main() in process for volume, a process of its own for part of the cases; Python's argparse syntax of the documented options."),
    "C31": ("metamorphic property-based testing: damage confined to one part of a LinkInfo or ID list block",
            "All other parts are compared; every part and offset swept with fixed values and every cut."),
    "C32": ("property-based testing with a scaling relation: traced memory and output length of a structure repeated n and n/4 times",
            "Structures of 20-100 kB; damaged files with claimed sizes up to 200 MB."),
}


def main():
    with open(os.path.join(TOP, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    assert set(ids) == set(CHECKS), set(ids) ^ set(CHECKS)
    m = {"version": 1,
         "setup_cmd": "python3-vt -c 'import hypothesis, yaml, atheris' && ./check --help > /dev/null",
         "checks": [{"property": i, "quick_cmd": "./check %s --tier quick" % i,
                     "thorough_cmd": "./check %s --tier thorough" % i,
                     "evidence_file": "evidence/%s.json" % i,
                     "technique": CHECKS[i][0], "level": "exploration", "level_note": CHECKS[i][1]} for i in ids],
         "not_applicable": []}
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
