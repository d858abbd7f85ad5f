#!/bin/bash
# tlc.sh CFG MODULE [lines]: run TLC by hand in spec/
cd "$(dirname "$0")/../spec"
java -XX:+UseParallelGC -Xss64m -Xmx6g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers ${W:-8} -metadir /tmp/m$$ -noGenerateSpecTE -config $1 $2 | grep -v -E "Semantic|Linting|Parsing" | tail -${3:-22}; rm -rf /tmp/m$$
