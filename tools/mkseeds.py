#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md; logs of tools/try.sh as arguments."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+) (C\d+) rc=(\d)(.*?)\| *(.*?)\| *(.*)", l)
        if m and m.group(3) == "1":
            d = got.setdefault(m.group(1), {"fail": "", "obl": ""})
            if "failing input" in m.group(5):
                d["fail"] = "failing input"
            k = re.search(r"failed obligation: \S.*?\[(\S+).*?\] (\w[\w-]*):", m.group(6))
            if k:
                d["obl"] = k.group(1).rstrip(":")
# seen in runs whose logs are not kept
for k, o, f in [("every-32768th", "", 1), ("every-65536th", "", 1), ("codec-scratch", "", 1), ("stale-handler", "", 1),
                ("shared-write-buffer", "", 1), ("shared-argument", "svc:*", 0), ("entry-budget", "", 1), ("tokens-lost", "", 1),
                ("packed-key", "", 1), ("folded-true", "gen:edgeu", 1), ("global-write-lock", "rpc:conc", 1),
                ("umount-anyway", "svc:rfc1813.MOUNT_PROGRAM_MOUNT_V3:MOUNTPROC3_UMNT", 1), ("twice-recycled", "rpc:handle", 1)]:
    got[k] = {"fail": "failing input" if f else "", "obl": o}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    d = got.get(s)
    how = "not tried" if d is None else " and ".join(x for x in (d["obl"] and "obligation of `%s`" % d["obl"], d["fail"]) if x) or "obligation"
    print("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), how))
