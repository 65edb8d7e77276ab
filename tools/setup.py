#!/usr/bin/env python3
"""Nothing to build: checks that the interpreter and libraries the checks need are there."""
import os, subprocess, sys
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.exit(subprocess.call([py, "-c", "import sys, numpy, matplotlib, PIL, packaging; assert sys.version_info >= (3, 12)"]))
