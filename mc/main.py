"""Entry point: python -m mc.main C01 quick | --replay FILE"""
import importlib
import json
import os
import sys
import traceback

from . import core


def load(prop):
    return importlib.import_module("mc." + prop.lower())


def finish(rep):
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(core.VERIF, "out"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(rep.evidence(), f, indent=1, default=repr)
        f.write("\n")
    for what in rep.known:
        print(f"KNOWN-FINDING: property={rep.prop} {what}")
    for i, v in enumerate(rep.violations[: core.MAX_VIOLATIONS]):
        path = os.path.join(core.VERIF, "out", f"{rep.prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=repr)
            f.write("\n")
        print(f"VIOLATION property={rep.prop} replay={path}")
        print(f"  case {v['fn']}{tuple(v['args'])!r}"[:2000])
        if v["choices"] is not None:
            print(f"  schedule {v['choices']}"[:500])
        print("  " + v["detail"].replace("\n", "\n  ")[:3000])
    e = rep.evidence()["coverage"]
    print(
        f"{rep.prop} {rep.tier}: states={e['states']} transitions={e['transitions']} "
        f"traces={e['traces_validated_against_impl']} violations={len(rep.violations)} "
        f"in {rep.evidence()['wall_s']} s"
    )
    sys.stdout.flush()
    return 1 if rep.violations else 0


def main(argv):
    core.install()
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            v = json.load(f)
        rep = core.Report(v["property"], "quick", 0)
        mod = load(v["property"])
        rep.module = mod
        core.import_pyown()
        fn = getattr(mod, v["fn"])
        args = [tuple(a) if isinstance(a, list) and getattr(mod, "TUPLES", False) else a for a in v["args"]]
        if v.get("choices") is not None:
            from .explore import replay

            replay(rep, fn, args, v["choices"], v.get("bound"))
        else:
            rep.call(fn, *args, limit=120)
        for x in rep.violations:
            print("reproduced:", x["detail"])
        if rep.known:
            print("known finding:", rep.known)
        if not rep.violations:
            print("not reproduced")
        return 1 if rep.violations else 0

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rep = core.Report(prop, tier, seed)
    try:
        core.import_pyown()
    except core.CheckError:
        raise
    except BaseException:
        # the package cannot even be imported: nothing of the property holds
        rep.violation("import pyown", [], traceback.format_exc(limit=-5))
        return finish(rep)
    try:
        mod = load(prop)
    except (ImportError, AttributeError):
        rep.violation("import of the public names", [], traceback.format_exc(limit=-5))
        return finish(rep)
    rep.module = mod
    rep.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    mod.run(rep, tier)
    if rep.states == 0 and not rep.violations:
        raise core.CheckError("nothing explored")
    return finish(rep)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
