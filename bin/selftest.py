#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and the basic modules compute what the standards say."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pylib"))
import vlib
r = vlib.tlc("SelfTest", "SPECIFICATION Spec\n", os.path.join(vlib.BUILD, "work", "selftest"))
print("self-test", "ok" if r.rc == 0 else "FAILED\n" + r.out[-2000:])
sys.exit(0 if r.rc == 0 else 1)
