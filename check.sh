#!/bin/bash
# usage: bash check.sh C01   (tier from $VERIF_TIER, seed from $VERIF_SEED)
cd "$(dirname "$0")" || exit 3
export PYTHONWARNINGS=ignore PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python -W ignore -m vlib.driver "$@"
