#!/bin/sh
# Builds the Java overrides of the TLA+ operators and the conformance harnesses.
cd "$(dirname "$0")" && exec python3 lib/setup.py
