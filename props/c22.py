"""C22: a requested shutdown lets connections finish, serves no new ones, and completes."""
from vf import disp, dispreal
from vf.core import Target

TARGETS = [Target("history", lambda t: disp.strategy("shutdown", t), lambda c: disp.run(c, "shutdown"), "connections were open when shutdown was requested",
                  quick=(4, 500, 14), thorough=(8, 20000, 300)),
           Target("real", dispreal.shutdown_strategy, dispreal.shutdown_run, "connections were open when SIGTERM was sent",
                  quick=(8, 5, 18), thorough=(16, 400, 250), lib=None, case_timeout=90)]
BINS = ("plain",)
