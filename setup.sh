#!/bin/bash
# Nothing is kept between runs: every check builds its own harness. This only proves that the tools are here.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
g++ --version >/dev/null && python3 --version >/dev/null
