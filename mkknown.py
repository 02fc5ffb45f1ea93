#!/usr/bin/env python3
# Regenerates the "fixed:" lines of known_findings.txt from the fix commits in /repo.
import subprocess
MAP = [("use the y-coordinate in the projective", "P01"), ("batched doubling", "P01"), ("encode the point at infinity", "P02"), ("print and parse elements in the fast", "P02"),
("reduce decoded values and flag", "P03"), ("halving an odd", "P08"), ("compare a nonzero", "P08"), ("zero to the power zero", "P01"), ("flag zero products", "P01"),
("reduce decoded and hashed", "P03"), ("an identity in one factor", "P01"), ("never raise zero", "P01"), ("final powering of one", "P01"), ("type E elliptic net", "P01"),
("byte encoding of integers", "P02"), ("powers beyond the table", "P15"), ("an x-coordinate", "P03"), ("square roots of base", "P17"), ("malformed point text", "P03"),
("report unusable entropy", "P04"), ("a random GT element terminates", "P04"), ("count the punctuation", "P11"), ("print a single percent", "P11"), ("report failure to print", "P11"),
("report failed writes of multiz", "P11"), ("print integers to a buffer", "P11"), ("element_mul_si in groups", "P01"), ("reject malformed numbers", "P12")]
MAP += [tuple(l.rstrip("\n").split("\t")) for l in open("/verif/known_map.tsv")] if __import__("os").path.exists("/verif/known_map.tsv") else []
out = ["# known: property=PXX class=<failure class> what fails       (reported as KNOWN-FINDING, does not fail the check)",
       "# fixed: property=PXX <commit> what failed                    (suppresses nothing)"]
out += [l.rstrip("\n") for l in open("/verif/known_findings.txt") if l.startswith("known:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = [b for a, b in MAP if s[5:].startswith(a)]
    if not p: print("no property for:", s); continue
    out.append(f"fixed: property={p[0]} {h} {s[5:]}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
