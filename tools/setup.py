#!/usr/bin/env python3
"""Builds the MIR driver and primes the dependency caches (offline)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import load
for dbg in (False, True):
    d = load.dump(dbg)
    print('dump', 'debug' if dbg else 'release', len(d['fns']), 'functions')
