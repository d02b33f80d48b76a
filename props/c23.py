"""C23: whatever one peer does, the daemon and the other connections are unaffected."""
from vf import disp, dispreal
from vf.core import Target

TARGETS = [Target("history", lambda t: disp.strategy("isolation", t), lambda c: disp.run(c, "isolation"), "healthy connections were served next to misbehaving ones",
                  quick=(6, 500, 14), thorough=(8, 20000, 300)),
           Target("real", dispreal.isolation_strategy, dispreal.isolation_run, "every case has good connections next to a misbehaving peer",
                  quick=(2, 20, 14), thorough=(8, 1000, 200), lib=None, case_timeout=90)]
BINS = ("plain",)
