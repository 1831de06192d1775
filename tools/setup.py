#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bx import frontend
frontend.build_exporter()
os.makedirs(os.path.join(frontend.VERIF, 'evidence'), exist_ok=True)
print('exporter ready')
