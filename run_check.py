"""Entry point: run_check.py <property id>. Run through ./check, which sets the environment."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))


def main():
    prop = sys.argv[1]
    if os.environ.get("VERIF_FAULT"):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ["VERIF_FAULT"]), exit=True)
    import vlib
    mod = importlib.import_module(prop.lower())
    chk = vlib.Check(prop, getattr(mod, "LEVEL", "model_checking"))
    os.chdir(vlib.newdir("run_"))
    try:
        mod.run(chk)
    except vlib.MachineryError:
        traceback.print_exc()
        print("ERROR: machinery failure in the check of %s" % prop)
        return 3 if not chk.viol else chk.finish()
    except Exception:
        tb = traceback.format_exc()
        print(tb)
        # An exception that comes out of the code under test while it is being driven is a disagreement
        # with the specification; one raised by the harness itself is an error of the check.
        import re
        files = re.findall(r'File "([^"]+)"', tb)
        if files and any("/bilby/" in f for f in files):
            chk.violation("driver", "exception from bilby: " + tb[-2500:])
        elif not chk.viol:
            print("ERROR: harness failure in the check of %s" % prop)
            return 3
    return chk.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
