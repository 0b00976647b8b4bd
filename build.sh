#!/bin/bash
# Builds (1) the programs of /repo as simulated modules, (2) the harness. Prints nothing on success.
# usage: build.sh [check ...]   (default: every check)
set -e
V=/verif; R=${VERIF_REPO:-/repo}; B=$V/build
mkdir -p $B
exec 9>$B/.lock; flock 9
HH=$(cat $V/build.sh $V/sim/*.cpp $V/sim/*.h $V/checks/*.h $R/src/message.h | sha256sum | cut -c1-16)
H=$B/h-$HH
SH=$( (cat $V/build.sh $V/sim/sim.cpp $V/sim/variants.txt; cd $R/src; for f in *.c *.h; do echo "== $f"; cat $f; done) | sha256sum | cut -c1-16)
S=$B/s-$SH
CXXF="-std=c++17 -O1 -g -Wall -Wno-misleading-indentation -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -I$V/sim -I$V/checks -I$R/src"

# ---- programs
if [ ! -f $S/.done ]; then
  rm -rf $B/s-*; mkdir -p $S/obj
  grep -oE '^SIM\([^,]*, *[A-Za-z0-9_]+' $V/sim/sim.cpp | sed -E 's/.*, *//' | sort -u | awk '{print $1" sim_"$1}' > $S/redef
  # C23/fortified spellings of the same calls
  SRCS=$(cd $R/src; ls *.c | grep -v '^test_')
  NODEMAIN=; 
  while read -r name prog flags; do
    case "$name" in ''|\#*) continue;; esac
    mkdir -p $S/obj/$name
    for c in $SRCS; do echo "$name|$c|$flags"; done
  done < $V/sim/variants.txt > $S/jobs
  export S R
  comp() { IFS='|' read -r name c flags <<< "$1"; o=$S/obj/$name/${c%.c}.o
    gcc -std=gnu17 -O1 -g -w -fPIC -fno-common -fstack-protector-all -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 $flags -I$R/src -c $R/src/$c -o $o 2> $o.err || { gcc -O1 -g -w -fPIC -fno-common -fstack-protector-all -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 $flags -I$R/src -c $R/src/$c -o $o 2> $o.err || { cat $o.err >&2; exit 255; }; }
    objcopy --redefine-syms=$S/redef $o; }
  export -f comp
  xargs -a $S/jobs -P 8 -d '\n' -I{} bash -c 'comp "$1"' _ {}
  while read -r name prog flags; do
    case "$name" in ''|\#*) continue;; esac
    objs=
    for o in $S/obj/$name/*.o; do
      case $(basename $o .o) in $prog) objs="$objs $o";; *) nm $o | grep -q ' T main$' || objs="$objs $o";; esac
    done
    gcc -shared -Wl,-Bsymbolic -Wl,-z,norelro -Wl,-z,now -Wl,-z,muldefs -o $S/$name.so $objs -lm 
  done < $V/sim/variants.txt
  # more instances of the same programs for multi-process runs
  for n in node_small client_small; do for k in b c; do cp $S/$n.so $S/${n}_$k.so; done; done
  rm -rf $S/obj; touch $S/.done
fi

# ---- harness
mkdir -p $H
if [ ! -f $H/.done ]; then
  for d in $B/h-*; do [ "$d" = "$H" ] || rm -rf "$d"; done
  ( g++ $CXXF -c $V/sim/sim.cpp -o $H/sim.o & p1=$!; g++ $CXXF -c $V/sim/explore.cpp -o $H/explore.o & p2=$!; wait $p1; wait $p2 )
  [ -f $H/sim.o ] && [ -f $H/explore.o ]
  touch $H/.done
fi
CHECKS=${*:-$(cd $V/checks; ls c*.cpp | sed 's/\.cpp//')}
# ---- parts of the programs called directly: units/<check>.c together with every source but the main ones
for c in $CHECKS; do
  [ -f $V/units/$c.c ] || continue
  uh=$(cat $V/units/$c.c | sha256sum | cut -c1-12); u=$S/unit_$c.so
  [ "$(cat $u.sum 2>/dev/null)" = "$uh" ] && continue
  mkdir -p $S/uobj; comp1() { o=$S/uobj/$(basename ${1%.c}).o; gcc -std=gnu17 -O1 -g -w -fPIC -fno-common -fstack-protector-all -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DDW_VERIF -DDW_VERIF_BUF_SIZE=1024 -DDW_VERIF_MAX_CONNS=6 -DDW_VERIF_MAX_REQS=8u -DDW_VERIF_MAX_PKTS=16 $UF -I$R/src -c $1 -o $o && objcopy --redefine-syms=$S/redef $o; }
  if [ ! -f $S/uobj/.done ]; then for f in $(cd $R/src; ls *.c | grep -v '^test_' | xargs grep -LE '^ *(int|void) +main *\('); do comp1 $R/src/$f; done; touch $S/uobj/.done; fi
  { comp1 $V/units/$c.c 2> $S/$c.err || { UF=-DFEWER comp1 $V/units/$c.c; }; }; cp $S/uobj/$c.o $S/$c.unit.o; rm -f $S/uobj/$c.o
  gcc -shared -Wl,-Bsymbolic -Wl,-z,norelro -Wl,-z,muldefs -o $u $S/uobj/*.o $S/$c.unit.o -lm; echo $uh > $u.sum
done
todo=
for c in $CHECKS; do [ -f $V/checks/$c.cpp ] || continue; h=$(sha256sum < $V/checks/$c.cpp | cut -c1-12); if [ "$(cat $H/$c.sum 2>/dev/null)" != "$h" ]; then todo="$todo $c"; fi; done
if [ -n "$todo" ]; then
  export CXXF H V
  bc() { g++ $CXXF $V/checks/$1.cpp $H/sim.o $H/explore.o -rdynamic -ldl -lpthread -o $H/$1.tmp && mv $H/$1.tmp $H/$1 && sha256sum < $V/checks/$1.cpp | cut -c1-12 > $H/$1.sum || exit 255; }
  export -f bc
  echo $todo | tr ' ' '\n' | xargs -P 8 -I{} bash -c 'bc {}'
fi
echo "$H $S" > $B/paths
