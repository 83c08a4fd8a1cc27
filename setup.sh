#!/bin/sh
# Nothing to compile: check the interpreter, the import path and the reference models.
cd "$(dirname "$0")" && exec ./check.py --selftest
