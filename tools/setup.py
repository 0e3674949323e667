#!/usr/bin/env python3
"""Builds the extractor and the harness once (offline)."""
import os, sys
sys.argv = [sys.argv[0]]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
os.makedirs(check.WORK, exist_ok=True)
check.build_vx()
check.build_harness()
print("ok")
