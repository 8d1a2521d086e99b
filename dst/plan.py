"""Which simulation families decide which property, and how many seeds each tier runs."""
import importlib

# property: [(family module, seeds in the quick tier, seeds in the thorough tier)]
PLAN = {
    "C01": [("gen_t", 420, 20000)],
    "C02": [("gen_t", 190, 10000), ("gen_r", 260, 10000)],
    "C03": [("gen_t", 800, 30000)],
    "C04": [("gen_t", 420, 20000)],
    "C05": [("gen_t", 320, 16000)],
    "C06": [("gen_o", 640, 30000)],
    "C07": [("gen_t", 350, 16000)],
    "C08": [("gen_t", 800, 30000)],
    "C09": [("gen_b", 2340, 60000)],
    "C10": [("gen_t", 480, 20000), ("gen_b", 480, 20000)],
    "C11": [("gen_t", 350, 16000)],
    "C12": [("gen_t", 290, 12000), ("gen_u", 260, 12000)],
    "C13": [("gen_u", 800, 30000)],
    "C14": [("gen_f", 350, 14000)],
    "C15": [("gen_i", 210, 10000)],
    "C16": [("gen_o", 640, 30000)],
    "C17": [("gen_t", 380, 16000)],
    "C18": [("gen_t", 380, 16000)],
    "C19": [("gen_f", 280, 12000), ("gen_s", 100, 6000)],
    "C20": [("gen_l", 500, 30000)],
    "C21": [("gen_e", 800, 30000)],
    "C22": [("gen_e", 800, 30000)],
    "C23": [("gen_s", 420, 20000)],
}


def family(name):
    return importlib.import_module("dst." + name)


def jobs(prop, tier):
    """[(family, index)] in the order they are run: families interleaved."""
    out = []
    for name, quick, thorough in PLAN[prop]:
        n = quick if tier == "quick" else thorough
        out += [((i + 0.5) / n, name, i) for i in range(n)]
    out.sort()
    return [(name, i) for _, name, i in out]
