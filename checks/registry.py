import importlib
MODS = {"C12": "constell", "C14": "orbit", "C15": "horizon", "C08": "strops", "C13": "spline", "C11": "sphere", "C04": "timescale", "C10": "rot", "C07": "varstar", "C05": "desig", "C06": "desig", "C03": "easter", "C01": "cal", "C02": "cal"}


def get(pid):
    m = importlib.import_module(MODS[pid])
    return m.CHECKS[pid]()
