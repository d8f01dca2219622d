#!/bin/bash
# runs the checks for the given property ids
cd "$(dirname "$0")" && exec python3 -m vp.check "$@"
