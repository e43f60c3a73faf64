"""Checks that everything the checks need is there, and builds the harness once."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

b, out = lib.build("vfcore", timeout=1500)
if not b:
    print(out[-3000:])
    sys.exit(1)
if not os.path.exists(lib.CP.split(":")[0]):
    print("TLC is missing")
    sys.exit(1)
print("ok")
