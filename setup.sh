#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" && /opt/venv/bin/python dst/build.py --setup
