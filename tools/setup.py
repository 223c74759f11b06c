"""Builds the harness once (checks build it again from /repo's current tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
exe, why = check.build_harness()
print(exe or why)
sys.exit(0 if exe else 1)
