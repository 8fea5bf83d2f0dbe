#!/bin/bash
# Build the framework once from the committed files, offline.
cd "$(dirname "$0")" || exit 1
./check.sh --build-only
