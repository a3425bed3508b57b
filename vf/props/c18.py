"""C18 - VD-CMA samples and adapts as the published algorithm prescribes."""
from .. import cmacheck

LEVEL = "exploration"
RULE = ("serial VD-CMA runs; a reference model told the observed points must reproduce, from the regenerated standard normal numbers, every "
        "generation; with 'Penalize' also clipped points and the reported best "
        "penalized value; non-trivial: a generation after an update was compared")
MINIMA = {"generations": 5000, "adapted": 3000, "penalized": 1500, "clipped_points": 3000, "penalties": 1000}


def cases(ctx):
    return cmacheck.cases(ctx, "vdcma", 3200, 16000)


run_case = cmacheck.follow
finish = cmacheck.finish
