"""Line coverage of the package under test, for building the checks: set
VERIF_COV to a directory and every worker writes the lines it reached there."""
import atexit
import json
import os
import sys


def start(pkg, out):
    mon, tool = sys.monitoring, 3
    mon.use_tool_id(tool, "vcov")
    seen = set()

    def line(code, n):
        if code.co_filename.startswith(pkg):
            seen.add((code.co_filename[len(pkg):], n))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    atexit.register(lambda: json.dump(sorted(seen), open(os.path.join(out, f"{os.getpid()}.json"), "w")))
