#!/bin/bash
# Builds the IR preparation tool (the only artefact the checks share).
cd "$(dirname "$0")" && python3-vt -c 'import build; print(build.irtool())'
