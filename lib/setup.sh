#!/bin/bash
# builds the common variants once; every check rebuilds what it needs when /repo changed
cd "$(dirname "$0")/.." && bash lib/build.sh fo eprover
