#!/usr/bin/env python3
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import front
front.tool_path()
print('units:', len(front.load_raw()))
