#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property by deterministic simulation.

Builds the simulator and the code under test from /repo's working tree, runs
the seeded search, writes evidence/<ID>.json and prints the verdict."""

import sys

sys.dont_write_bytecode = True
import os

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver

sys.exit(driver.main(sys.argv[1:]))
