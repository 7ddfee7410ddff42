#!/usr/bin/env python3
"""Builds the harness once, so that later builds are short."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

os.makedirs(vlib.BUILD, exist_ok=True)
vlib.build_harness(profiles=("dev", "release", "wide", "huge"))
