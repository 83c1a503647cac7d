#!/usr/bin/env python3
"""check.py <property id> : decide one property on the current /repo tree.
exit 0 holds, 1 violated (VIOLATION line), 2 analysis broken."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from sa import lib
    from sa import terms
    rep = lib.Report(pid)
    terms.END[0] = time.time() + (600 if rep.tier == 'quick' else 7200)
    try:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        lib.program()
        mod.run(rep)
        rc = rep.finish()
    except SyntaxError as e:
        print('%s: cannot parse the program: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        if rep.findings:
            return rep.finish()
        print('%s: analysis broken' % pid)
        return 2
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
