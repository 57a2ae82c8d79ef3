#!/usr/bin/env python3
"""Builds the harness in both variants against /repo's current tree (the checks rebuild when it has changed)."""
from dsv import core
core.build(threads=False)
core.build()
