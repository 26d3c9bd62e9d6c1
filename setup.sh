#!/bin/bash
# Builds the framework from the committed files (offline) and warms the build cache.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p evidence bin
(cd engine && go build -o ../bin/zprove .) || exit 1
s=$(mktemp -d) && python3 -c "import vf,sys; b,n=vf.build('$s'); print(b,n)" ; rm -rf "$s"
exit 0
