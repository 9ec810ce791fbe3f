#!/bin/sh
# Nothing to install: every check builds what it needs from /repo.
command -v java >/dev/null && command -v g++ >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar
