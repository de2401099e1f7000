#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo from its source"""
import sys, os, time, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from wp import main
sys.exit(main.main(sys.argv[1:]))
