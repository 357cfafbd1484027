"""C03: minimum and maximum (spec/GridCalc.tla)."""
from . import gridcalc


def run(ctx):
    if ctx.tier == "quick":
        gridcalc.run(ctx, ["C03_q1", "C03_q2", "C03_q3"], 1)
    else:
        gridcalc.run(ctx, ["C03_q1", "C03_q2", "C03_q3"], 10)
