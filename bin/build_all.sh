#!/bin/bash
# Builds the harness families once (warms the Go build cache); the checks rebuild what they need.
cd "$(dirname "$0")/.." && exec python3 bin/setup.py "$@"
