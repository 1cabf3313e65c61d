#!/usr/bin/env python3
"""check.py <property> [--tier T] [--count N] | <property> --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
