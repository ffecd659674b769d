#!/bin/bash
# builds the IR dumper and its dependencies offline
set -e
bash "$(dirname "$0")/dump.sh" g01
