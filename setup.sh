#!/bin/bash
# warms the build cache by building the explorer once
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
cd "$here/mc" && go build -o /dev/null .
