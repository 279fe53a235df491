"""python check.py C01 [quick|thorough]   - explore;   python check.py --replay FILE   - re-run one recorded case."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main(argv):
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            body = json.load(f)
        module = importlib.import_module("mc.props." + body["property"].lower())
        if set(body["case"]) == {"chunks"}:
            list(module.chunks(body["case"]["chunks"]))
            msg = None
        elif set(body["case"]) == {"chunk"}:
            from mc import engine
            rec = engine.Rec()
            module.run(body["case"]["chunk"], rec)
            msg = rec.failures[0][1] if rec.failures else None
        else:
            msg = module.check_case(body["case"])
        print("reproduced: " + msg if msg else "not reproduced")
        return 1 if msg else 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    from mc import engine
    module = importlib.import_module("mc.props." + argv[0].lower())
    return engine.main(module, tier)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
