#!/bin/bash
# Unpacks hypothesis from the offline wheelhouse into /verif/.deps (checks do it themselves if this did not run).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
exec /opt/venv/bin/python "$here/pbt/deps.py"
