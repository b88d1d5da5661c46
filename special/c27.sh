#!/bin/bash
exec python3 "$(dirname "$0")/c27.py" run
