#!/usr/bin/env python3
"""Builds the harness, so that the checks find it built (each would build it otherwise)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verif

verif.build()
