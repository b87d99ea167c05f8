#!/bin/sh
# TLC with a deep stack (recursive operators) and no files next to the specification
exec java -XX:+UseSerialGC -XX:TieredStopAtLevel=${TLC_TIER:-4} -Xss${TLC_XSS:-256m} -Xmx${TLC_XMX:-3g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE "$@"
