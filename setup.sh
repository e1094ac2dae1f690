#!/bin/bash
# builds the custom ops once; every check rebuilds them from /repo as needed
. /opt/vp/env.sh
( build_ops ) >/tmp/.tfe_verif_build.log 2>&1 || { tail -20 /tmp/.tfe_verif_build.log; exit 1; }
