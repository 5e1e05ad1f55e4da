import importlib

MODULES = {
    "C01": "first_use", "C02": "first_use", "C03": "defs", "C04": "concurrent", "C05": "history",
    "C06": "retry", "C07": "notrace", "C08": "signals", "C09": "damage", "C10": "args", "C11": "alias",
    "C12": "progress", "C13": "registry_prop", "C14": "processes",
}


def get(pid):
    m = importlib.import_module("sim.props." + MODULES[pid])
    for c in vars(m).values():
        if isinstance(c, type) and getattr(c, "id", None) == pid and c.__module__ == m.__name__:
            return c()
    raise KeyError(pid)
