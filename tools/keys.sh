#!/bin/bash
# tools/keys.sh PROP RUNS: histogram of violation keys over all runs.
cd "$(dirname "$0")/.." && DST_ALL=1 DST_RUNS=$2 DST_KEYS=1 ./check.sh $1 ${3:-quick}
