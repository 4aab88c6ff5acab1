#!/usr/bin/env python3
"""check.py PROPERTY: run the check of one property on the current source tree."""
import importlib, os, sys, threading, warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
code = [2]


def main():
    prop = sys.argv[1]
    from vsa.driver import Check
    mod = importlib.import_module("checks." + prop.lower())
    c = Check(prop)
    mod.run(c)
    code[0] = c.finish(getattr(mod, "LEVEL", "other"), getattr(mod, "ASSUMPTIONS", ()))


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(code[0])
