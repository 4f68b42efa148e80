#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/mq")
from run import *

if __name__ == "__main__":
    main(lambda c: check(c, "hostile", "11", asan=True, n=300), "C22")
