import sys, importlib, time
sys.path.insert(0, "/verif")
from ecv import front, unit
import json
VB='-v' in sys.argv
FULL='-f' in sys.argv
WRITE='-w' in sys.argv
UNROLL='-u' in sys.argv
def main():
    m = front.module()
    us = []
    for n in sys.argv[1].split(","):
        us += importlib.import_module("ecv.units." + n).UNITS
    sel = [a for a in sys.argv[2:] if a[0] != '-'] 
    for u in us:
        if sel and not any(s in u.name for s in sel): continue
        r = unit.run(m, u, verbose=VB, hints=not FULL)
        if r.status == "proved" and WRITE:
            hh = unit.load_hints()
            hh[u.prop + ":" + u.name] = unit.solve.needed(r.cx)
            json.dump(hh, open(unit.HINTS, "w"), indent=0, sort_keys=True)
        if r.status == "proved" and (WRITE or UNROLL):
            mm = unit.load_meta()
            e = {"t": round(r.wall, 1)}
            if r.loops:
                from ecv import check
                ((_, b),) = check.in_children([(0, lambda: unit.run1(m, u, False, False, unroll=2).status, lambda: 90)])
                e["unroll2"] = b == "proved"
                if not e["unroll2"]: print("    ", u.name, "unroll2:", b)
            mm[u.prop + ":" + u.name] = e
            json.dump(mm, open(unit.META, "w"), indent=0, sort_keys=True)
        sys.stdout.flush(); print("%-40s %-12s %d obls, %d failed, %.1fs solver %.1fs vac=%s %s" % (u.name, r.status, len(r.obls), len(r.failed), r.wall, r.solver, r.vacuity, r.detail[:1500]))
        for o in r.failed[:12]:
            print("     FAIL", o.name, o.status, o.line, getattr(o,'info',''))
        if VB and hasattr(r,'cx'):
            print("   contracts:", r.used, "inlined:", r.inlined)
            for o in r.obls: print("     ", o.name, o.status, o.info, "%.2f"%o.time)
            for k,m_ in r.models.items():
                print(k, str(m_)[:3000] )
                break
main()
