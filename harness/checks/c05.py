"""C05: conditioning and mixing (spec/GridCalc.tla)."""
from . import gridcalc


def run(ctx):
    if ctx.tier == "quick":
        gridcalc.run(ctx, ["C05_q1", "C05_q2", "C05_q3"], 0)
    else:
        gridcalc.run(ctx, ["C05_q1", "C05_q2", "C05_q3"], 5)
