#!/bin/bash
# builds the symbolic interpreter (the checks also do this on demand)
cd "$(dirname "$0")" && exec python3 -c 'import check; print(check.engine())'
