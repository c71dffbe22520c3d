#!/bin/bash
# Checks that the framework builds offline from the committed files.
set -e
cd "$(dirname "$0")"
exec python3 ./check C01 --build-only
