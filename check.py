import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MODULES = {"C01": "tok", "C02": "tok", "C03": "tok", "C04": "tok", "C05": "ops", "C06": "ops", "C07": "logic", "C08": "parser", "C25": "parser", "C18": "trans", "C19": "rng", "C20": "exc", "C12": "sp", "C13": "sp", "C14": "arena", "C15": "model", "C16": "model", "C17": "model", "C22": "model", "C24": "jsn", "C23": "overlay", "C09": "ev", "C10": "ev", "C11": "ev", "C21": "ev", "C26": "sync"}
if __name__ == "__main__":
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from vc import run
    m = importlib.import_module("vc." + MODULES[prop])
    sys.exit(run.main(prop, tier, m.Suite))
