"""Builds the executor and the harness once, so that checks start quickly."""
import sys, check
try:
    print(check.build(sorted(check.VARIANTS)))
except check.NoAnswer as e:
    print("setup:", e)
    sys.exit(1)
