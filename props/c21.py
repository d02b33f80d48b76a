"""C21: never more connections than allowed, and none of the waiting ones is forgotten."""
from vf import disp, dispreal
from vf.core import Target

TARGETS = [Target("history", lambda t: disp.strategy("limit", t), lambda c: disp.run(c, "limit"), "connections were waiting because the limit was reached",
                  quick=(6, 500, 14), thorough=(8, 20000, 300)),
           Target("real", dispreal.limit_strategy, dispreal.limit_run, "more connections than the limit allows at once, or no limit",
                  quick=(2, 20, 14), thorough=(8, 1000, 200), lib=None, case_timeout=90)]
BINS = ("plain",)
