#!/bin/sh
# Regenerates harness/oplist.h from the op_* functions.
cd "$(dirname "$0")/../harness" && grep -oh "^static void op_[a-z0-9_]*" ops_*.h | sed 's/static void op_\(.*\)/X(\1)/' > oplist.h
