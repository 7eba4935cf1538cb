#!/usr/bin/env python3
"""Builds the extractor (also done on demand by every check)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import frontend  # noqa: E402

print(frontend.build_tool())
