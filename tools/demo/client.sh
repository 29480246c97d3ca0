#!/bin/bash
# Builds demo.c with the client's sources and runs it; run with cwd = the repository, after a build.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
fl="-w -g -O1 -DHAVE_CONFIG_H -D_GNU_SOURCE -DWITH_OOMF -DWITH_PTHREADS -DSYSCONFDIR=\"/etc\" -DCONMAN_CONF=\"/etc/conman.conf\" -I$r -I$r/_build -I$r/src -I$d $DEMO_CFLAGS"
for f in "$r"/src/*.c; do
    b=$(basename "$f" .c)
    case $b in server*) continue;; esac
    m=; [ "$b" = client ] && m=-Dmain=conman_main
    gcc $fl $m -c "$f" -o "$w/$b.o" 2>>"$w/err" &
done
gcc $fl -c "$d/demo.c" -o "$w/demo_main.o" 2>>"$w/err" &
wait
gcc $DEMO_CFLAGS "$w"/*.o -o "$w/demo" -lpthread $DEMO_LIBS 2>>"$w/err" || { cat "$w/err"; exit 2; }
cd "$w" && timeout 120 ./demo
