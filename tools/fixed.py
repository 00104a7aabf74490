#!/usr/bin/env python3
"""Add "fixed" records to known_findings.json for the repair commits in /repo."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, "known_findings.json")
RULES = [  # first path match decides the property a repair belongs to
    ("Templates/HybridVector", "P04"), ("Templates/CircularArray", "P05"), ("CircularIterator", "P05"),
    ("Templates/InitializerList", "P06"), ("Templates/Vector", "P01"), ("Templates/Array", "P02"),
    ("Templates/List", "P03"), ("StringConvertions", "P08"), ("Templates/String", "P07"),
    ("Optional", "P09"), ("Variant", "P09"), ("Templates/Object", "P09"), ("Tuple", "P09"),
    ("Expected", "P10"), ("Pointers", "P11"), ("Serialization", "P12"), ("ByteOrder", "P12"),
    ("WideInt", "P13"), ("Ipv4", "P15"), ("Iterator", "P14"), ("Range", "P14"), ("Common/Utils", "P14"),
    ("Algorithms", "P14"),
    ("Threads/Utils", "P17"), ("Threads/Cond", "P18"), ("Threads/Counter", "P18"), ("Threads/Thread", "P19"),
    ("Os/Threads", "P16"), ("Posix/Threads", "P16"), ("QueuedArray", "P20"), ("Os/Async", "P21"),
    ("Os/Library", "P24"), ("LibraryFunctions", "P24"), ("Os/Network", "P22"), ("Posix/Network", "P22"),
    ("Types/Structs", "P28"), ("InitializeArgs", "P26"), ("SoftPkcs11", "P27"), ("Crypto/Pkcs11", "P25"),
]


def main():
    data = json.load(open(PATH))
    have = {f.split()[2] for f in data["fixed"]}
    out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
    extra = dict(a.split("=") for a in sys.argv[1:])
    for line in out.splitlines():
        sha, msg = line.split(" ", 1)
        if not msg.startswith("fix:") or sha in have:
            continue
        base = subprocess.call(["git", "-C", "/repo", "merge-base", "--is-ancestor", sha, "2b17497"])
        if base == 0:
            continue
        files = subprocess.check_output(["git", "-C", "/repo", "show", "--format=", "--name-only", sha], text=True)
        prop = extra.get(sha) or next((p for r, p in RULES if r in files), None)
        if not prop:
            print("no property for", sha, msg, files.split())
            continue
        data["fixed"].append("fixed: property=%s %s %s" % (prop, sha, msg[4:].strip()))
    json.dump(data, open(PATH, "w"), indent=1)


main()
