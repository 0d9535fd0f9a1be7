#!/usr/bin/env python3-vt
"""check.py <property id>: decides one property on /repo's current tree.  0 held, 1 violated, 2 no answer."""
import sys, os, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V + '/props')
import threading
def main():
    pid = sys.argv[1]
    import driver, build
    c = None
    try:
        m = importlib.import_module(pid.lower())
        c = driver.Check(pid)
        rc = m.run(c)
    except build.BuildError as e:
        print('ERROR property=%s: the analysed sources do not build:\n%s' % (pid, e)); rc = 2
    except Exception as e:
        traceback.print_exc(); print('ERROR property=%s: %s' % (pid, e)); rc = 2
        if c is not None and c.viol: rc = c.finish('stopped: %s' % e)
    return rc
if __name__ == '__main__':
    threading.stack_size(512*1024*1024)
    sys.setrecursionlimit(100000)
    r = [2]
    t = threading.Thread(target=lambda: r.__setitem__(0, main())); t.start(); t.join()
    sys.stdout.flush(); os._exit(r[0]) if False else sys.exit(r[0])
