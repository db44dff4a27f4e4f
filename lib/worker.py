import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
harness.worker_main(sys.argv[1:])
