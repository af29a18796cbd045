# property -> families of simulated runs (name, share of the time[, build flavour[, extra options]])
QUICK_SECONDS = 40
THOROUGH_SECONDS = 600
F = ["--x.focus=faults"]
T = ["--x.focus=threads"]
TF = ["--x.focus=file"]
PLAN = {
    "C01": {"level": "exploration", "families": [("worker", 3), ("managed", 2)]},
    "C02": {"level": "exploration", "families": [("managed", 1)]},
    "C03": {"level": "exploration", "families": [("managed", 1, "norm", ["--x.focus=moves"])]},
    "C04": {"level": "exploration", "families": [("files", 4), ("third", 1, "norm", TF)]},
    "C05": {"level": "exploration", "families": [("files", 3), ("files", 2, "norm", F), ("third", 1, "norm", TF)]},
    "C06": {"level": "exploration", "families": [("sgio", 3), ("sgio", 1, "norm", F)]},
    "C07": {"level": "exploration", "families": [("files", 2), ("worker", 2), ("third", 1)]},
    "C08": {"level": "exploration", "families": [("third", 1)]},
    "C09": {"level": "exploration", "families": [("sockets", 1)]},
    "C10": {"level": "exploration", "families": [("hier", 3), ("worker", 1)]},
    "C11": {"level": "exploration", "families": [("worker", 1), ("managed", 1), ("hier", 1)]},
    "C12": {"level": "exploration", "families": [("layout", 3), ("worker", 1)]},
    "C13": {"level": "exploration", "families": [("managed", 1), ("worker", 1), ("files", 1), ("third", 1)]},
    "C14": {"level": "exploration", "families": [("params", 3), ("managed", 1)]},
    "C15": {"level": "exploration", "families": [("hier", 1, "norm", ["--x.focus=output"]), ("managed", 1), ("worker", 1)]},
    "C17": {"level": "exploration", "families": [("hier", 1, "thr", T), ("worker", 1, "thr", T), ("sgio", 1, "thr", T)]},
    "C18": {"level": "exploration", "families": [("files", 1, "norm", F), ("sgio", 1, "norm", F)]},
}
