#!/usr/bin/env python3
"""usage: run.py ID [quick|thorough]   -- decide one property (see MANIFEST.json)"""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
import vf  # noqa: E402


def load(pid):
    spec = importlib.util.spec_from_file_location("check_" + pid, os.path.join(HERE, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(vf.main(pid, load(pid).run, sys.argv[2:]))
