#!/usr/bin/env python3
"""Builds the harnesses and the server, and parses every specification."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import common  # noqa: E402

for kind in ('eng', 'net', 'server'):
    if kind == 'server' or os.path.isdir(os.path.join(common.VERIF, 'harness', kind)):
        common.build(kind)
print('ready')
