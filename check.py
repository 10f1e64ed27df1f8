#!/usr/bin/env python3
"""check.py <property>: decides one property; see DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core

MODULES = {"C01": "parsing", "C02": "parsing", "C03": "parsing", "C04": "parsing", "C05": "parsing",
           "C06": "building", "C07": "building", "C08": "building", "C09": "building",
           "C10": "settings", "C11": "settings", "C12": "settings", "C13": "schedule",
           "C14": "dictionary", "C15": "dictionary", "C16": "dictionary",
           "C17": "service", "C18": "service", "C19": "service", "C20": "service", "C21": "service",
           "C22": "clock", "C23": "pipe"}


def main():
    prop = sys.argv[1]
    ck = core.Check(prop)
    try:
        mod = __import__("lib." + MODULES[prop], fromlist=["run"])
        level = mod.run(ck, prop)
        rc = ck.finish(level)
    except Exception as e:
        if isinstance(e, core.SetupFailed):
            ck.violation("a valid dictionary does not load", dictionary=e.cmd, got=e.resp)
        elif isinstance(e, core.ToolError):
            print("ERROR: %s" % e)
        else:
            traceback.print_exc()
        # what was found before stands
        rc = ck.finish("model_checking") if ck.bad else 2
    finally:
        core.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


main()
