#!/bin/bash
# Installs hypothesis from the offline wheelhouse into /verif/.vendor (checks also do this themselves if it is missing).
cd "$(dirname "$0")" && /opt/venv/bin/python -c "
import run
env = run.environment(); run.ensure_vendor(env); run.ensure_extensions(env); print('ready')"
