#!/usr/bin/env python3
"""bin/check.py <property> [quick|thorough]: decides one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import check, plans
sys.exit(check.main(sys.argv[1:], plans.check))
