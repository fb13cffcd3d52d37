"""Build the driver and the facts of the current tree ahead of the checks (every check can also do this by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import facts
try:
    facts.core(); facts.spec()
except facts.BuildError as e:
    print("facts:", str(e)[-2000:])
