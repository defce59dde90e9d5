#!/bin/bash
# builds the driver once, offline (warms the build cache; every check rebuilds what it needs)
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd h && go build -o /dev/null ./drv
