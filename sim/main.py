"""command line entry point"""
import os
import sys

CHECKS = {
    # property: (workload, quick runs, thorough runs, options)
    "C01": ("pool", 8000, 200000, {}),
    "C02": ("pool", 8000, 200000, {}),
    "C03": ("pool", 8000, 200000, {}),
    "C04": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C05": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C06": ("evalsim", 700, 20000, {"limit": 60.0}),
    "C07": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C08": ("evalsim", 650, 20000, {"limit": 60.0}),
    "C09": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C10": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C11": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C16": ("evalsim", 1000, 20000, {"limit": 60.0}),
    "C18": ("evalsim", 700, 20000, {"limit": 60.0}),
    "C17": ("samplersim", 1500, 40000, {"limit": 90.0}),
    "C12": ("samplersim", 1000, 40000, {"limit": 90.0}),
    "C13": ("samplersim", 1200, 40000, {"limit": 90.0}),
    "C14": ("samplersim", 1200, 40000, {"limit": 90.0}),
    "C15": ("samplersim", 6000, 60000, {"limit": 90.0}),
}


def main():
    args = sys.argv[1:]
    from .boot import boot
    boot()
    from . import driver
    if args[0] == "--replay":
        return driver.replay(args[1])
    if args[0] == "--one":
        import importlib, json
        prop, i = args[1], int(args[2])
        wl = importlib.import_module("sim.workloads." + CHECKS[prop][0])
        if hasattr(wl, "warm"):
            wl.warm()
        case, seed = driver.case_for(wl, prop, int(os.environ.get("VERIF_SEED", "1")), i, "quick")
        out = driver.single_run(wl, case, seed, None, 120)
        print(json.dumps(case, default=str))
        for x in (out.get("trace") or []) if os.environ.get("VERIF_TRACE") else []:
            print("  ", x)
        for x in (out.get("history") or []) if os.environ.get("VERIF_TRACE") else []:
            print("  H", x)
        print({k: v for k, v in out.items() if k not in ("trace", "history", "taken")})
        return 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    wname, nq, nt, opt = CHECKS[prop]
    wall = opt.pop("wall_" + tier, 420.0 if tier == "quick" else 3600.0)
    opt = {k: v for k, v in opt.items() if not k.startswith("wall_")}
    return driver.check(prop, wname, tier, nq if tier == "quick" else nt, wall=wall, **opt)


if __name__ == "__main__":
    sys.exit(main())
