#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current source."""
import os
import sys
import threading

sys.set_int_max_str_digits(0)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.report import main  # noqa: E402


def go():
    global rc
    rc = main(sys.argv[1])


rc = 3
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
threading.stack_size(64 * 1024 * 1024)
t.join()
sys.stdout.flush()
os._exit(rc)
