#!/usr/bin/env python3
"""Checks that the tools needed are there; every check builds for itself."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('g++', 'python3'):
    if not shutil.which(t):
        print('missing: ' + t)
        sys.exit(1)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(V, 'build'), exist_ok=True)
print('ready')
