import json
import os
import sys


def main(argv):
    from . import boot  # imports pywr once; children are forked from here

    boot.boot()
    from . import runner

    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    workers = int(os.environ.get("VSIM_WORKERS", "8"))
    cmd = argv[0]
    if cmd == "build":  # the extensions are built (by the wrapper) and import
        return 0
    if cmd == "run":
        rc = 0
        for pid in argv[1:]:
            r, _ = runner.run_property(pid, seed, tier, workers)
            rc = 1 if 1 in (r, rc) else max(rc, r)
        return rc
    if cmd == "replay":
        return runner.replay(argv[1])
    if cmd == "case":  # run one case in this process, with output: for debugging
        pid, i = argv[1], int(argv[2])
        mod = runner.load_prop(pid)
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        case = runner.gen_case(mod, pid, seed, i, tier)
        if "-v" in argv:
            print(json.dumps(case, indent=1))
        import tempfile

        ctx = runner.Ctx()
        ctx.scratch = tempfile.mkdtemp(prefix="dbg", dir=runner.OUT)
        os.chdir(ctx.scratch)
        mod.run(case, ctx)
        res = ctx.result()
        print({k: v for k, v in res.items() if k != "states"})
        os.chdir("/")
        import shutil

        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 0
    if cmd == "digests":  # for the determinism self-test
        pid, n = argv[1], int(argv[2])
        _, res = runner.run_property(pid, seed, tier, workers, n=n, quiet=True, evidence=False)
        print("DIGESTS " + json.dumps({k: r["digest"] for k, r in sorted(res.items())}))
        return 0
    print("unknown command", cmd)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
