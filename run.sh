#!/bin/bash
# run.sh <PROPERTY-ID> [quick|thorough] [extra args passed to the check]
# Rebuilds the custom ops from /repo's working tree and runs one check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null || shift $#
. /opt/vp/env.sh
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export PYTHONPATH=$here:$PYTHONPATH
export TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 PYTHONWARNINGS=ignore
exec 9>/tmp/.tfe_verif_build.lock; flock 9
( build_ops ) >/tmp/.tfe_verif_build.log 2>&1; rc=$?
flock -u 9
if [ $rc -ne 0 ]; then
  echo "build of the custom ops failed:"; tail -20 /tmp/.tfe_verif_build.log; exit 2
fi
cd "$here" && exec python -m vlib.main "$id" "$@"
