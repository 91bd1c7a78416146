"""setup: build the verifier's decision procedure"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
from vc import enc
enc.build()
print('built', enc.BIN if hasattr(enc, 'BIN') else 'engine/build/strvc')
