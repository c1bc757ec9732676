"""Which lines of the repository ran (SIM_COV=<file>): a reporting aid, used by
tools/coverage.py; no check depends on it."""
import os
import sys

TOOL = 3


def start(path):
  fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
  mon = sys.monitoring
  mon.use_tool_id(TOOL, 'ocnncov')

  def line(code, no):
    f = code.co_filename
    if '/ocnn/' in f or '/projects/' in f or '/tools' in f:
      os.write(fd, ('%s:%d\n' % (f, no)).encode())
    return mon.DISABLE
  mon.register_callback(TOOL, mon.events.LINE, line)
  mon.set_events(TOOL, mon.events.LINE)
