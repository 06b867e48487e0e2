#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "symbolic execution of the object code; z3 proves word equivalences and access bounds"
CLAIMED = {
    "C01": (A, "Every input bit symbolic; the digest terms of every block are proved equal to FIPS 180-4 by z3 lemmas for the "
            "stated block counts and alignments. Trusts the instruction semantics of x86/machine.py (compared with the CPU on "
            "random inputs each run), objdump and z3."),
    "C02": (A, "Every access of every run is in its buffer, frame or constants for all data, preserved registers equal their "
            "entry values, nothing shared is written, for the stated block counts and stack alignments. Trusts x86/machine.py."),
}
B = "symbolic execution of clang's LLVM IR of the repository's sources; z3 decides every branch and assertion"
TRUST = (" Bounded: lists of the lengths in the evidence file; SHA-256 is an uninterpreted function here (C01 decides the kernels); "
         "standard library, YAML nodes and streams are models in model/; counterexamples and sampled paths are replayed natively.")
for _p, _n in {
    "C03": "Every answer of CPUID leaves 0, 1 and 7 and every requestable backend; the kernels are stand-ins that record which one ran.",
    "C04": "All chunk contents for each count and limit of the evidence file, against the specification's virtual padding, limits up to 2^63.",
    "C05": "All contents of bytes, numbers, booleans, bit fields, vectors and lists of the lengths in the evidence file.",
    "C06": "All contents of every container of the specification, in several shapes of its lists.",
    "C07": "All contents of every type, in several shapes of its lists, against the specification's serialization.",
    "C08": "All contents of every type in several shapes: decode(encode(v)) equals v, encodes and hashes alike.",
    "C09": "All byte strings of short lengths, and encodings of values with all values of their offsets; accepted bytes encode back to themselves.",
    "C10": "Same inputs as C09: no access outside of memory, no uninitialised value, exception, oversized allocation or endless loop.",
    "C11": "Every list field with its limit, the numbers of elements around the limit, all contents, both SSZ and YAML.",
    "C12": "All contents of pairs of values of every type in several pairs of shapes.",
    "C13": "All pairs of attestation data.",
    "C14": "All indices for each number of indices in the evidence file.",
    "C15": "All validators and epochs.",
    "C16": "All 32 and 64 bit numbers; the floating point square root is modelled by the IEEE 754 rounding bounds.",
    "C17": "All values for the text form and all characters for the lengths of text in the evidence file.",
    "C18": "All contents of every type in several shapes, both directions of the YAML conversion.",
    "C19": "All operands of the conversions and operators of numbers, bytes and booleans; sequences of the lengths in the evidence file.",
    "C20": "The default value of every type.",
    "C21": "The sizes of every type under both presets, and the constants.",
    "C22": "All contents for counts and limits of the evidence file, including lists over their limit.",
    "C23": "Objects with all contents decoded into again, from SSZ bytes and YAML, valid or not.",
    "C24": "Copies, moves and assignments of all contents of every type in several shapes.",
}.items(): CLAIMED[_p] = (B, _n + TRUST)
NA = {}
PENDING = "the check is being built"


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
    NA["C25"] = ("file input and output and the external yaml-cpp and snappy libraries: outside what the symbolic executors "
                 "can encode; the in-memory YAML conversion is C18")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick ./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                     "evidence_file": "evidence/%s.json" % p, "technique": CLAIMED[p][0], "level": "model_checking",
                     "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED],
         "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CLAIMED],
         "notes": "See DESIGN.md. No hooks in /repo: the checks build the repository's sources as they are."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
