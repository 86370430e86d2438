"""A step that never ends is GEEC's doing, not silence: after LIMIT seconds without a
record, the stack is dumped and the replay stops (see vlib/run.py)."""
import faulthandler
import json
import sys

LIMIT = 240


def alive():
    faulthandler.dump_traceback_later(LIMIT, exit=True, file=sys.__stderr__)


def emitter(f):
    faulthandler.enable(file=sys.__stderr__)
    alive()

    def emit(rec):
        f.write(json.dumps(rec, default=float) + "\n")
        f.flush()
        alive()

    return emit
