#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else None
C = {}
def check(p, technique, level, note): C[p] = (technique, level, note)

MC = "model_checking"
check("C01", "Conformance of the parser with an explicit character-level state machine (W-method), all token sequences to a depth, scaled texts", MC,
      "Exhaustive up to the stated bounds: all model states, all inputs of access.alphabet^k.W, every ASCII character at every state, all token sequences up to a depth, sizes beyond every power of two up to 4097 and names up to 100 000 characters. Trusts the state machine in mc/src/lang.rs as the definition of the language.")
check("C02", "Exhaustive enumeration of layouts: up to 3 unusual gaps (4 thorough) of schemas with every construct; same module required", MC,
      "Exhaustive over the listed ways to fill each gap up to the deviation bound, uniform fillings of all gaps, every comment content from a list in every gap, and schemas of up to 40 fields and variants.")
check("C03", "The text space of C01 through the whole compiler; every diagnostic is parsed back and checked against the state machine", MC,
      "Exhaustive over the same bounded space as C01 (smaller k), with several kinds of text in front, also non-ASCII and long lines. Diagnostics are located by the model's longest viable prefix.")
check("C04", "Exhaustive enumeration of small schemas times all hash iteration orders against a declarative definition of well-formedness", MC,
      "Exhaustive over the listed families: reference graphs up to 5 structs, markers, equal names, enums of 0..40 variants, exports, equal declarations, one defect at every place, sizes up to 300. Hash order is chosen through the packetc_mc hook.")
check("C05", "Exhaustive enumeration of small ill-formed schemas times all hash iteration orders; the message must be one of the true ones", MC,
      "Same families as C04; the set of true messages comes from the declarative definition.")
check("C06", "Exhaustive enumeration of small well-formed schemas times all hash iteration orders; deep comparison of the resolved schema with a model", MC,
      "Same families as C04 plus all acyclic graphs in all declaration orders; built-in entries of the type map are not observed.")
check("C07", "Every hash iteration order and every declaration order of each schema; same module required", MC,
      "All permutations for schemas of 4 declarations, rotations for larger ones, up to 100 fields. Order of declarations inside the namespace is not observed, as TypeScript does not.")
check("C08", "Generated modules are executed: exhaustive enumeration of bounded schemas and values; encode, decode, encode again", MC,
      "Type-checked and emitted by the TypeScript compiler, run on an in-memory stand-in for the packet runtime. Values up to a deviation bound around defaults; schema shapes up to nesting depth 3.")
check("C09", "Generated modules are executed against an independent reference codec, writer and reader separately, over all bounded schemas and values", MC,
      "As C08; the reference codec is the executable form of the layout in the property. ASCII strings only (see C19).")
check("C10", "Exhaustive enumeration of truncations, one- and two-byte corruptions and short byte strings for bounded schemas, executed against a reference decoder", MC,
      "As C08; the reference decoder decides for each byte string. The stand-in runtime fails reads past the end as the property assumes.")
check("C11", "All variant counts 1..32 at all positions, all 8- and 16-bit wire values and 32-bit boundary values, executed", MC,
      "Exhaustive in count, variant and position; 32-bit wire values are all values with at most 3 bits set or cleared plus neighbours of powers of two.")
check("C12", "Strict TypeScript compilation of all bounded schemas; exported types compared with the declared ones through the compiler API", MC,
      "Trusts the TypeScript compiler 5.9 as the judge of validity and of types.")
check("C13", "Exhaustive enumeration of small directory trees, path spellings and earlier output states through the real binary, against a model of the file system", MC,
      "Exhaustive over the listed trees and spellings, as an unprivileged user on a scratch directory.")
check("C14", "Exhaustive enumeration of small trees with every placement of invalid files, and of argument errors, through the real binary", MC,
      "As C13; exit status, standard error and a full comparison of the file system. One bad file among up to 100 (300) and up to 40 folders down.")
check("C15", "Fault enumeration: every system call of a run fails with every error code, is cut short or is where the process is killed", "fault_enumeration",
      "Faults are injected at the libc boundary by a preloaded library, exhaustively for one fault in every scenario and listing order, for all pairs in short runs and for pairs which start with a soft fault elsewhere. Kernel-level durability (fsync) is out of scope.")
check("C16", "All histories up to a length of schemas compiled in one process against fresh-process results; all short edit/run histories of the command", MC,
      "Exhaustive up to the length bound over the listed schemas and edits.")
check("C17", "Exhaustive enumeration of sensitive identifiers at all positions, and of small assignments of colliding names, executed", MC,
      "Exhaustive over the list and positions; known unfixable names are listed in known_findings.json and reported as such.")
check("C20", "Stateless exploration of the interleavings of overlapping runs of the real binary under a scheduler, up to 2 or 3 switches (3 or 4 thorough), also with one run killed", MC,
      "Exhaustive for the listed pairs of runs up to the bound on switches; runs are switched at calls on files (libc boundary). Three runs at once in the thorough tier.")
NA = {
 "C18": "The Rust back end is not compiled at this commit (commented out in src/lib/gen/mod.rs), so there is nothing to run.",
 "C19": "The packet runtime library, which defines how strings are encoded, is not part of this repository.",
}
have = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
claimed = CLAIMED or list(C)
m = dict(version=1, setup_cmd="python3 setup.py",
 hooks=dict(guard="cfg(packetc_mc)", enable="RUSTFLAGS=\"--cfg packetc_mc\"", source_commits=["a779981"]),
 checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
              technique=C[p][0], level=C[p][1], level_note=C[p][2], evidence_file="evidence/%s.json" % p) for p in have if p in claimed],
 not_applicable=[dict(property=p, reason=NA.get(p, "The check is not finished yet.")) for p in have if p not in claimed],
 notes="check.py builds and runs one check; check.py --replay FILE re-evaluates a violation. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
