"""setup_cmd: build what the checks need from /repo's current tree (cached by content)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.driver(); check.race_driver()
print("driver built")
