#!/bin/bash
# tlctrace.sh MODULE TRACE FOCUS
d=$(mktemp -d); V=${VERIF:-/verif}; cp $V/spec/*.tla $d; cp $V/spec/Trace.cfg $d/$1.cfg; cd $d
TRACE=$2 FOCUS=$3 java -XX:+UseSerialGC -Xmx3g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir $d/m -config $1.cfg $1.tla
rm -rf $d
