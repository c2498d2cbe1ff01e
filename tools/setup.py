#!/usr/bin/env python3
"""Builds the extractor and analyses the tree once."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
p = check.load_program()
print('extractor ready;', len(p.units), 'units,', len(p.funcs), 'functions')
