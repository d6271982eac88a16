#!/bin/bash
# mc.sh MODULE CFG [extra args]
d=$(mktemp -d); cp /verif/spec/* $d; cd $d
m=$1; c=$2; shift 2
timeout ${T:-300} java -XX:+UseParallelGC -Xmx6g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 6 -metadir $d/m -config $c "$@" $m.tla
rm -rf $d
