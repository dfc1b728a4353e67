#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import suite
sys.exit(suite.main(sys.argv[1:]))
