"""Counts executed lines of a package (sys.monitoring); raises Exceeded in the code under test beyond a bound."""
import sys, os

mon = sys.monitoring
TOOL = 4


class Exceeded(BaseException):
    pass


class Meter:
    def __init__(self, root):
        self.root = root + os.sep
        self.n, self.cap = 0, 0
        mon.use_tool_id(TOOL, 'meter')
        mon.register_callback(TOOL, mon.events.LINE, self.line)

    def line(self, code, lineno):
        if not code.co_filename.startswith(self.root):
            return mon.DISABLE
        self.n += 1
        if self.n > self.cap:
            self.cap = float('inf')
            raise Exceeded()

    def run(self, fn, cap=float('inf')):
        """(lines executed or None if the bound was exceeded, result)"""
        self.n, self.cap = 0, cap
        mon.set_events(TOOL, mon.events.LINE)
        try:
            res = fn()
        except Exceeded:
            return None, None
        finally:
            mon.set_events(TOOL, 0)
        return self.n, res
