import contextlib
import importlib
import io
import json
import os
import sys
import time
import traceback
from . import core


def main() -> int:
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        with open(args[1], encoding="utf-8") as f:
            rec = json.load(f)
        pid = rec["property"]
    else:
        rec, pid = None, args[0]
    only = args[2] if len(args) > 2 and args[1] == "--facet" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from .boot import boot
    try:
        boot()
        mod = importlib.import_module(F"pbt.props.{pid.lower()}")
    except Exception as e:
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        # the package under test (or what the check builds from it) cannot be loaded: the property cannot hold
        if any(f.filename.startswith(os.path.join(core.REPO, "src")) for f in frames):
            path = core.write_replay(pid, "load", None, tb)
            print(tb)
            ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                  "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "loading of the package", "samples": [tb[-500:]]},
                  "wall_s": round(time.time() - t0, 2), "violations": 1}
            write_ev(pid, ev)
            print(F"VIOLATION property={pid} replay={path}")
            return 1
        raise
    prop: core.Prop = mod.PROP
    run = core.Run(prop, tier, seed)
    if rec is not None:
        facet = next(f for f in prop.facets if f.name == rec["facet"])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                facet.fn(core.Ctx(run, facet), rec["case"])
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print(F"VIOLATION property={pid} replay={args[1]}")
            return 1
        print("replay: held")
        return 0
    facets = [f for f in prop.facets if only is None or f.name == only]
    for facet in facets:
        with contextlib.redirect_stdout(io.StringIO()):
            ok = run.run_facet(facet)
        if not ok:
            break
    if only is None:
        write_ev(pid, run.evidence(time.time() - t0))
    if run.violation:
        name, case, tb = run.violation
        path = core.write_replay(pid, name, case, tb)
        print(F"facet {name}: case {core.short(case, 1500)}")
        print(tb[-3500:])
        print(F"VIOLATION property={pid} replay={path}")
        return 1
    with contextlib.redirect_stdout(io.StringIO()) as out:
        run.probe_known()
    for line in out.getvalue().splitlines():
        if line.startswith(("KNOWN-FINDING", "note:")):
            print(line)
    print(F"{pid}: held, {run.evaluations} cases, {len(run.nontrivial)} distinct non-trivial, {time.time()-t0:.1f} s")
    for k, v in run.per_facet.items():
        print("  ", k, json.dumps(v, ensure_ascii=False))
    return 0


def write_ev(pid, ev):
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", F"{pid}.json"), "w", encoding="utf-8", errors="replace") as f:
        json.dump(ev, f, ensure_ascii=True, indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("harness error", file=sys.stderr)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
