#!/usr/bin/env python3
"""Builds the executor once, to show that everything needed is there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build
print(build.build('std'))
