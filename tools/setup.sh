#!/bin/bash
# nothing is kept between runs: only makes sure the toolchains are there
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
cargo --version
python3 --version
mkdir -p evidence work
