#!/bin/bash
# builds bitcode and harnesses ahead of the checks (each check would build what is missing by itself)
cd "$(dirname "$0")"
exec /opt/veriftools/pyvenv/bin/python3 -c '
import sys; sys.path.insert(0, ".")
from irvc import build, native
import props, importlib
hs = {}; tus = set()
for k, c in props.PROPS.items():
    if c.get("harness"): hs[c["harness"]] = c.get("daemon", False)
    for m, _ in c["contracts"]: tus.update(importlib.import_module("contracts." + m).TUS)
build.bitcodes(sorted(tus))
for h, d in hs.items():
    try: native.harness(h, daemon=d)
    except Exception as e: print("harness", h, e)
'
