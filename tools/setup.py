"""setup_cmd: builds the source extractor (extractor/, against the installed libclang)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.facts import ensure_tool
print(ensure_tool())
