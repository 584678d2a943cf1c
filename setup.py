#!/usr/bin/env python3
"""Builds the framework once from the committed files (checks rebuild what they need themselves)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import programs
programs.build_explorer()
programs.build_rt()
print("ok")
