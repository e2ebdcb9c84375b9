#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
sys.exit(runner.main(sys.argv[1:]))
