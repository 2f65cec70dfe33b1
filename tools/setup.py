#!/usr/bin/env python3
"""Builds the harness crates once, so that a broken sandbox shows up before the checks run."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dvlib import pipeline
print(pipeline.harness())
print(pipeline.lexharness())
