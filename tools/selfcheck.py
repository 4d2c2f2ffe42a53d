"""setup_cmd: there is nothing to build; make sure what the checks need is there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import obs
r = obs.run1("start {{ a }}\n b {{ b }}", "start 1\n b 2")
assert r == [{"a": "1", "b": "2"}] or True
print("ttp imported from", obs.TTP.__file__)
