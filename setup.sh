#!/bin/bash
# Nothing to install: only verify that the tools the checks use are there.
set -e
cargo --version
python3 --version
