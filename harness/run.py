import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        common.TIER = sys.argv[2]
    try:
        common.build()
        import checks
        out = common.Outcome()
        checks.CHECKS[pid](out, pid)
        rc = common.finish(pid, out)
    except common.MachineryError as e:
        print("MACHINERY FAILURE: %s" % e)
        rc = 2
    finally:
        common.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
