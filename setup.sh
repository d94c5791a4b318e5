#!/bin/bash
# builds the analysis driver and analyses the unchanged tree once, so that later runs are quick
V=$(cd "$(dirname "$0")" && pwd)
exec "$V/facts.sh"
