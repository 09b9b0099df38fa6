#!/bin/bash
# nothing to build: the checks import verse from /repo's working tree; check that they can
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -W ignore -c "from dst import boot, props; print('ok', len(props.PROPS))"
