#!/bin/bash
# Builds the analyser from the committed sources, offline.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/ana"
go build -o "$here/bin/ana" .
