#!/bin/bash
# v.sh C09 [args]: compact report
p=$1; shift
/opt/venv/bin/python -W ignore run.py $p -v "$@" | grep -E "^C[0-9]|FAIL|VACU|INCOMP|ERR|UNREP|KNOWN" | sed -E 's/ +/ /g' | cut -c1-${W:-330} | head -${N:-24}
