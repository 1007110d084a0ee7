#!/usr/bin/env python3
"""Builds the runtime and the harnesses once; the checks rebuild whatever changed since."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for h in sorted(f[:-4] for f in os.listdir(os.path.join(vlib.VERIF, 'harness')) if f.startswith('h_') and f.endswith('.cpp')):
    try:
        vlib.build(h, ('dbg', 'rel', 'lay') if h == 'h_thread' else ('dbg', 'rel'))
    except vlib.CheckError as e:      # the checks say what is wrong
        print('setup: ', h, e)
