#!/usr/bin/env python3
"""setup_cmd: prebuild extractor and harness (checks rebuild what changed themselves)."""
import subprocess, sys
sys.argv = ["check.py", "P01"]
import check
check.build_extractor()
print("extractor ok")
