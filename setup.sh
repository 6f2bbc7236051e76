#!/bin/bash
# Nothing persists between checks: each builds what it needs from /repo. Setup
# only confirms that the harness builds.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
go version
