#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sedrv
print(sedrv.build_pass()); print(sedrv.build_rt()); print(sedrv.build_native_rt())
