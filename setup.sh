#!/bin/bash
# Checks that everything needed is there by building the driver once.
exec "$(dirname "$0")/run.sh" --setup
