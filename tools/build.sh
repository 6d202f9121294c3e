#!/bin/bash
# build.sh OUT.bc SRC... -- FLAGS...   lower sources to one linked bitcode module
set -e
