#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property on /repo's current working tree
   check.py --replay FILE                 run the trace of a replay file again and judge it
   check.py --setup                       build everything the checks need

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: no answer."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import driver
sys.exit(driver.main(sys.argv[1:]))
