#!/bin/sh
# builds the framework from the committed files: Java overrides, drivers, and
# the validation of the SHAKE256 stand-in
cd "$(dirname "$0")" && exec python3 lib/setup.py
