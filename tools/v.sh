#!/bin/bash
# v.sh NAME: generate and verify one proof file by hand
mkdir -p /tmp/vp; cd "$(dirname "$0")" && python3 gen.py ../proofs/$1.vrs > /tmp/vp/$1.rs && verus /tmp/vp/$1.rs --triggers-mode silent --rlimit ${2:-30} 2>&1 | grep -v '^warning: '
