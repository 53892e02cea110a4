#!/bin/bash
# Builds the framework from the committed files (offline): libchaos, the monitor harness, the server of /repo.
set -e
cd "$(dirname "$0")"
. ./build.sh
build_chaos
build_mon
build_server
