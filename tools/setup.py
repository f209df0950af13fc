#!/usr/bin/env python3
"""Builds the harness tools and the compiler variants the checks use."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import build
for v in build.VARIANTS: print(build.ruc(v))
print(build.tool('rucvm.cpp'))
print(build.tool('lljit.c', cc='gcc', link=['-ldl']))
