"""A clock that only moves when told to, however the code reads the time."""

import sys
import time

NAMES = ["perf_counter", "monotonic", "time", "process_time"]


class FakeClock:
    """
    While active, every clock of the time module (also where pyvrp modules
    imported the function by name) returns a fixed, controllable value.
    """

    def __init__(self, start=1000.0):
        self.now = start
        self._undo = []

    def __enter__(self):
        fakes = {}
        for name in NAMES:
            fakes[getattr(time, name)] = lambda: self.now
            ns = getattr(time, name + "_ns")
            fakes[ns] = lambda: int(round(self.now * 10**9))
        self._patch(time, fakes)
        for mod_name, mod in list(sys.modules.items()):
            if mod_name.split(".")[0] == "pyvrp" and mod is not None:
                self._patch(mod, fakes)
        return self

    def _patch(self, mod, fakes):
        for attr, val in list(vars(mod).items()):
            try:
                fake = fakes.get(val)
            except TypeError:
                continue
            if fake is not None:
                self._undo.append((mod, attr, val))
                setattr(mod, attr, fake)

    def __exit__(self, *exc):
        for mod, attr, val in reversed(self._undo):
            setattr(mod, attr, val)
        self._undo = []
