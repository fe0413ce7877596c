#!/bin/sh
# nothing to build: Python drivers and TLA+ modules; check that the tools are there and the specs parse
cd "$(dirname "$0")/spec" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/vp-sany.$$ 2>&1 \
    || { cat /tmp/vp-sany.$$; rm -f /tmp/vp-sany.$$; exit 1; }
done
rm -f /tmp/vp-sany.$$
exit 0
