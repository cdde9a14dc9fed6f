#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
#        check.sh replay FILE
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")" || exit 2
exec python3 -B driver.py "$@"
