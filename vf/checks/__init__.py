"""property id -> (check function, drivers it needs)"""
from . import mset, maps, num, dist, lin, py, opts, parts

CHECKS = {}
for m in (mset, maps, num, dist, lin, py, opts, parts):
    CHECKS.update(m.CHECKS)
