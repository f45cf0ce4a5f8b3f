#!/bin/bash
# Nothing to compile in /verif itself; brings /repo's git-ignored generated files up to date (as every check does).
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from kv import core; core.ensure_build(); print("ready")'
