#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, subprocess, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
from common import Check, CheckError, Unexpected, log

WHERE = {"C01": "codec", "C02": "codec", "C04": "frames", "C10": "frames", "C09": "wirechk", "C11": "wirechk", "C12": "wirechk", "C13": "columns", "C03": "header", "C07": "history", "C08": "bounds", "C05": "conc", "C06": "conc", "C15": "cdr", "C14": "rosmsg", "C16": "rosmsg", "C17": "rosmsg", "C18": "rosmsg", "C19": "pcl", "C20": "capi", "C21": "bag", "C22": "node", "C23": "pool", "C24": "node", "C25": "front", "C26": "front", "C27": "cli", "C28": "cli", "C29": "cli", "C30": "web", "C31": "listing", "C32": "bench", "C33": "texthdr"}

def main():
    prop = sys.argv[1]
    chk = None
    try:
        fn = getattr(importlib.import_module(WHERE[prop]), prop.lower())
        chk = Check(prop)
        fn(chk)
        sys.exit(chk.finish())
    except (CheckError, OSError, MemoryError, ImportError, SyntaxError, NameError, subprocess.SubprocessError) as e:
        # the check itself did not get through; what it had already found still counts
        if isinstance(e, CheckError):
            log("ERROR of the check %s: %s" % (prop, e))
        else:
            traceback.print_exc()
        sys.exit(chk.finish() if chk and chk.violations else 3)
    except Unexpected as e:
        chk.violation(str(e), {})
    except Exception:
        # results the check can not even read (missing events, values out of any range): on a tree where the
        # property holds there are none
        traceback.print_exc()
        chk.violation("the results of the code under test can not be read: " + traceback.format_exc()[-400:], {})
    sys.exit(chk.finish())

main()
