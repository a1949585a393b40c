"""Checks that the tools the framework needs are there and that the driver compiles."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts

d = tempfile.mkdtemp(prefix="oaksetup.")
try:
    facts.build_driver(os.path.join(d, "oakfacts"))
    print("driver ok")
finally:
    shutil.rmtree(d, ignore_errors=True)
