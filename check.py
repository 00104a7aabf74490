#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import vf          # noqa: E402
import registry    # noqa: E402

prop = sys.argv[1]
vf.main(prop, registry.CHECKS[prop])
