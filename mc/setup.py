#!/usr/bin/env python3
"""Nothing to build: makes sure that the interpreter the checks use is there."""
import subprocess, sys
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", "import numpy, scipy, PIL"]))
