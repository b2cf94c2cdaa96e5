#!/bin/bash
# backtrace of the rank that aborts: gdb1.sh <driver> <case> [args...]
d=$1; c=$2; shift 2
cat > /tmp/gdbcmd <<G
set follow-fork-mode child
set detach-on-fork off
set schedule-multiple on
set pagination off
catch signal SIGABRT SIGTRAP
run
bt 40
kill inferiors 1 2 3 4 5 6 7
quit
G
DRV_NOASLR=1 timeout 300 gdb -q -batch -x /tmp/gdbcmd --args /verif/build/bin/$d --from $c --to $c --stderr "$@" 2>&1 | grep -A45 "SIGABRT" | tail -45
