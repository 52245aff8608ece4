#!/bin/bash
# cfind.sh PROP SECONDS: quick CLI campaign without writing into evidence permanently
VSIM_SECONDS=$2 python3 /verif/check.py $1 quick
