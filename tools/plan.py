"""Cases per worker and variant. A quick run takes some 20 s on 8 cores."""

LEVEL = "exploration"

ASSUME = [
    "generated-input search: nothing is shown about inputs that were not generated",
    "the oracle (plain lists of bits and integers, defining formulas) in /verif/harness is right",
    "rustc and the standard library are right",
]

WORKERS = {"checked": 4, "release": 2, "cov": 2}


def P(cases, guided=None, thorough=60, workers=None, **kw):
    """cases: per worker of the checked build; the release build runs as many."""
    w = dict(workers or WORKERS)
    c = {"checked": cases, "release": cases, "cov": guided if guided is not None else cases // 8, "i686": cases, "i686r": cases}
    return dict(kw, workers=w, cases=c, thorough=thorough)


PLAN = {
    "C01": P(250_000, 40_000),
    "C02": P(150_000, 40_000),
    "C03": P(900_000, 200_000),
    "C04": P(600_000, 120_000),
    "C05": P(500_000, 90_000),
    "C06": P(30_000, 4_500),
    "C07": P(33_000, 7_000),
    "C08": P(450_000, 100_000),
    "C09": P(60_000, 6_500),
    "C10": P(250_000, 70_000),
    "C11": P(1_100_000, 450_000),
    "C12": P(1_500_000, 600_000),
    "C13": P(800_000, 300_000),
    "C14": P(130_000, 30_000),
    "C15": P(120_000, 70_000),
    "C16": P(60_000, 16_000),
    "C17": P(300_000, 80_000),
    "C18": P(80_000, 15_000),
    "C19": P(700_000, 100_000),
    "C20": P(2_000_000, 400_000),
    "C21": P(700_000, 150_000),
    "C22": P(12_000, 600),
    "C23": P(100_000, 50_000, workers={"checked": 2, "release": 1, "cov": 2}, gb=12,
             assume=["vectors in memory are tried up to 2^32 + 2^26 + 37 bits only"]),
    "C24": P(200_000, 25_000),
    "C25": P(60_000, workers={"i686": 5, "i686r": 3}, gb=4),
    "C26": P(70_000, 14_000),
    "C27": P(25_000, workers={"checked": 2, "release": 2}),
    "C28": P(160_000, 20_000),
    "C29": P(150_000, 20_000),
}
