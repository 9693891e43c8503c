#!/bin/bash
# mkT.sh NAME MODULE INIT STEP : trace-validation wrapper for a component specification
cd "$(dirname "$0")/../spec"
printf -- '------------------------------- MODULE %s --------------------------------\nEXTENDS %s, TraceKit\n=============================================================================\n' $1 $2 > $1.tla
printf 'CONSTANTS\n  SInit <- %s\n  SStep <- %s\nSPECIFICATION TSpec\n' $3 $4 > $1.cfg
