#!/bin/bash
# rebuild then fix.sh (args as fix.sh)
bash /opt/vp/build.sh >/tmp/bfix.log 2>&1 || { tail -20 /tmp/bfix.log; exit 1; }
exec /verif/tools/fix.sh "$@"
