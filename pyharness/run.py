"""run.py ID | --list | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/vp/venv/lib/python3.12/site-packages")


def main():
    if sys.argv[1] == "--list":
        import ids

        print("\n".join(ids.IDS))
        return 0
    import engine
    import props

    if sys.argv[1] == "--replay":
        return engine.replay(props.PROPS, sys.argv[2])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    out = os.environ.get("VH_EVIDENCE", "/verif/evidence")
    os.makedirs(out, exist_ok=True)
    return engine.run(props.PROPS[sys.argv[1]], seed, tier, out)


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main())
