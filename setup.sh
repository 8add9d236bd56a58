#!/bin/bash
# Nothing to build: checks read /repo's source directly. Verify the tools are there.
cd "$(dirname "$0")" || exit 1
exec ./check.sh --selftest
