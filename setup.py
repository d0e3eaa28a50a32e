#!/usr/bin/env python3
"""Warms the object cache (.build) from /repo's working tree; every check does this itself when the cache is absent."""
import sys
sys.dont_write_bytecode = True
from mc import core, diff, valdiff
for v in core.VARIANTS:
    core.build_kserve(v)
core.runtime_obj(); diff.driver_obj(); valdiff.driver_obj()
print("ready")
