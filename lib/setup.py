#!/usr/bin/env python3
"""Builds the symbolic engine from the committed sources (checks rebuild everything that depends on /repo themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.ensure_engine(); print('engine built:', build.ENGINE)
