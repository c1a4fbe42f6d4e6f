"""run.py <property id> [--family NAME ...]: explore one property on the current tree of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.pin_environment()


def main():
    pid = sys.argv[1]
    only = [a for a in sys.argv[2:] if a != "--family"]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import engine

    try:
        boot.import_target()
    except Exception as e:  # the package no longer imports: nothing the property promises is available
        import json, traceback

        traceback.print_exc()
        d = os.path.join(engine.ROOT, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "import.json")
        json.dump({"property": pid, "message": f"import failed: {e}"}, open(path, "w"))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    module = importlib.import_module("props." + pid.lower())
    return engine.explore(pid, module, tier, seed, only=only or None)


if __name__ == "__main__":
    sys.exit(main())
