#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(vbuild.PY))):
    os.execv(vbuild.PY, [vbuild.PY, os.path.abspath(__file__)] + sys.argv[1:])
import harness
sys.exit(harness.main(sys.argv[1:]))
