#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here"
if [ ! -x bin/ana ] || [ -n "$(find ana -name '*.go' -newer bin/ana 2>/dev/null | head -1)" ]; then
  bash ./setup.sh || { echo "VIOLATION property=$1 replay=/verif/ana"; exit 1; }
fi
tier=${2:-${VERIF_TIER:-quick}}
bin/ana -repo /repo -prop "$1" -tier "$tier" -out /verif/evidence -known /verif/known_findings.txt
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analyser stopped without a verdict (exit $rc)"
  echo "VIOLATION property=$1 replay=/verif/check.sh"
  exit 1
fi
exit $rc
