#!/bin/bash
# check.sh <property>: decides one property on /repo's working tree.
cd "$(dirname "$0")/analyzer" && PYTHONDONTWRITEBYTECODE=1 exec python3 main.py "$1"
