#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
exec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"
