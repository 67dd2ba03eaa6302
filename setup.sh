#!/bin/bash
# Prebuilds the extensions (plain and sanitized) from /repo; checks rebuild when sources differ.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python hv/build.py
