"""main.py <property> [<driver> ...]: decide one property for the current tree."""
import importlib
import os
import sys
import traceback

import vt

# the drivers whose traces decide a property
DRIVERS = {
    "C01": ["d_registry"],
    "C02": ["d_registry", "d_order"],
    "C03": ["d_session", "d_runs"],
    "C04": ["d_runs"],
    "C05": ["d_script", "d_runs"],
    "C06": ["d_script", "d_runs", "d_session"],
    "C07": ["d_script", "d_runs"],
    "C08": ["d_script", "d_runs"],
    "C09": ["d_runs", "d_eval"],
    "C10": ["d_material", "d_eval", "d_runs"],
    "C11": ["d_eval", "d_runs"],
    "C12": ["d_eval", "d_runs"],
    "C13": ["d_eval", "d_runs"],
    "C14": ["d_script", "d_runs", "d_session", "d_eval", "d_results"],
    "C15": ["d_figures"],
    "C16": ["d_figures"],
    "C17": ["d_session"],
    "C18": ["d_newton"],
    "C19": ["d_script", "d_runs"],
    "C20": ["d_log"],
}


def main(argv):
    prop = argv[0]
    chk = vt.Check(prop)
    os.chdir(vt.OUT if os.path.isdir(vt.OUT) else "/")
    try:
        import trusspy
        assert os.path.realpath(trusspy.__file__).startswith(os.path.realpath(vt.REPO)), trusspy.__file__
    except AssertionError:
        raise
    except Exception as e:
        chk.violation("import", "%s: %s" % (type(e).__name__, e))
        return chk.finish()
    for name in argv[1:] or DRIVERS[prop]:
        try:
            importlib.import_module(name).drive(chk, vt.TIER, vt.SEED)
        except Exception:
            if not chk.violations:  # nothing is decided
                raise
            traceback.print_exc()
    return chk.finish()


if __name__ == "__main__":
    os.makedirs(vt.OUT, exist_ok=True)
    sys.exit(main(sys.argv[1:]))
