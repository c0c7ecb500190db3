#!/bin/bash
# development helper: IR of /repo into the directory $1
mkdir -p "$1"; cd /verif && python3 -c "
import check,sys
print(check.build_ir('$1',['-DNDEBUG']))"
