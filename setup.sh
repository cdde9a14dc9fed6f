#!/bin/bash
# Compiles every harness package once, which warms the build cache.
exec bash "$(dirname "$0")/check.sh" setup
