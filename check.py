#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


def main():
    pid = sys.argv[1]
    import registry, harness
    try:
        rc = harness.main(registry.get(pid), sys.argv[2:])
    finally:
        harness.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
