#!/usr/bin/env python3
"""Write the specification of the given units (default: all) from a reviewed tree (VERIF_REPO)."""
import os, sys, threading, warnings, time
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def main():
    from vsa.driver import REPO
    from vsa.model import Program
    from vsa import conform
    from vsa.units import UNITS
    prog = Program(REPO)
    check = "--check" in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith("--")]
    for uid, u in UNITS.items():
        if names and not any(uid == n or uid.startswith(n) for n in names):
            continue
        t = time.time()
        s = u.analyse(prog)
        fac = conform.facets(s, want=u.want)
        if not check:
            conform.save(u.path(), fac)
        rs = conform.compare_facets(conform.load(u.path()), conform.facets(u.analyse(prog), want=u.want))
        bad = [r for r in rs if r.verdict != conform.EQ]
        print("%-60s %6.1fs %3d comps %7d bytes %s" % (uid, time.time() - t, len(rs), os.path.getsize(u.path()), "" if not bad else "NOT SELF-EQUAL"))
        for r in bad[:5]:
            print("      ", r.facet, r.name, r.verdict, r.detail[:300])


t = threading.Thread(target=main)
t.start()
t.join()
