#!/usr/bin/env python3
"""Builds everything the checks need from the committed files."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

try:
    build_classes()
    build_harness(False)
    build_harness(True)
except ToolError as e:
    log(e)
    sys.exit(2)
