#!/bin/bash
# compares the models of external functions with the installed libraries
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
cd "$(dirname "$0")" || exit 2
inc=$(mpicc -showme:compile)
for v in "" -DV8; do
  clang -O1 -w $inc $v validate_p4est.c -o "$d/v" -lp4est -lsc -lmpi -lm -lz && "$d/v" "${1:-2000000}" || exit 1
done
