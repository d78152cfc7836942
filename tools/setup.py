#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is there; everything else is built by each check."""
import shutil, sys
need = ["gcc", "g++", "gfortran", "clang", "clang++", "valgrind", "objcopy"]
miss = [t for t in need if not shutil.which(t)]
if miss: print("missing tools:", miss); sys.exit(1)
print("ok")
