#!/usr/bin/env python3
"""Print the go build overlay that adds the harness package (and its exports) to /repo.
VERIF_SKIP: comma separated optional files (opt*.go) to leave out."""
import json, os, glob
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
# optx_<pkg>.go files add exports to a package of the repository
EXPORTS = {"optx_sync2.go": "sync2/verif_export.go"}
skip = set(os.environ.get("VERIF_SKIP", "").split(","))
m = {}
for f in sorted(glob.glob(H + "/*.go")):
    b = os.path.basename(f)
    if b in skip:
        continue
    if b in EXPORTS:
        m[f"{REPO}/{EXPORTS[b]}"] = f
    else:
        m[f"{REPO}/zz_verif/{b[:-3]}_test.go"] = f
print(json.dumps({"Replace": m}))
