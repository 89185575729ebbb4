import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
EDITS = [(s["id"], s["edits"], [s["property"]]) for s in SEEDS]
