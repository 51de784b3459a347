"""bin/check <property>: decides one property on /repo's working tree. Exit 0 held, 1 violated, 2 the check is broken."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

MGR = {f"C{i:02d}" for i in range(1, 21)} - {"C18"}
CLI = {f"C{i}" for i in range(21, 27)}


def main():
    prop = sys.argv[1]
    try:
        if prop in MGR:
            import mgr
            rep = mgr.check(prop)
        elif prop == "C18":
            import lookup
            rep = lookup.check(prop)
        elif prop in CLI:
            import cli
            rep = cli.check(prop)
        else:
            raise common.Trouble(f"no check for {prop}")
        return rep.finish()
    except common.Trouble as e:
        print("CHECK FAILED:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
