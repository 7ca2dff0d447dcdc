"""setup_cmd: nothing to build (pure Python); checks that the tools are there"""
import sys
sys.path[:0] = ["/verif", "/repo/src"]
import ortools, pandas, yaml, antares.craft  # noqa
