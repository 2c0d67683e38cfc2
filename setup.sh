#!/bin/bash
# builds the extractor (checks build it themselves when it is missing)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, '.')
from sa import ir
ir.load()
print('extractor and program model ready')"
