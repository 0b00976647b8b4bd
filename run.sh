#!/bin/bash
# run.sh <property> [args]: rebuilds from /repo's working tree and runs one check.
p=$1; shift; c=$(echo $p | tr 'A-Z' 'a-z')
bash /verif/build.sh $c 1>&2 || exit 2
read -r H S < /verif/build/paths
VERIF_BUILD=$S exec $H/$c "$@"
