#!/usr/bin/env python3
"""builds the third-party dependencies of the witness crates once, so that every check only rebuilds the project's own crates"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import build
for name in ("core", "derive"):
    if os.path.isdir(os.path.join(build.VERIF, "witness", name)):
        with build.Lock():
            build.witness_mir(name)
