#!/bin/bash
# builds the exporter and exports the current tree once (each check does the same when it finds no cached export)
cd "$(dirname "$0")" && exec python3 -c "
import sys
sys.path.insert(0, 'engine')
from ef import front
db = front.load()
print(len(db.functions), 'functions exported')"
