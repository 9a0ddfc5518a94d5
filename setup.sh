#!/bin/bash
# Builds the front end (engine/export.cc); checks build it themselves when it is missing.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, '.')
from checks import base
print(base.exporter())"
