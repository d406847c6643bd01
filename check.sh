#!/bin/bash
# check.sh ID [quick|thorough]
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
exec python3 "$(dirname "$0")/harness/check.py" "$@"
