#!/bin/bash
# all.sh PROPS: the neutral refactorings must be quiet for the given checks
cd /verif; export NOTEST=1; (python3 tools/mut/mut.py tools/mut/neut.py $1; python3 tools/mut/mut.py tools/mut/neut_cli.py $1; for f in tools/mut/m[4-9].py tools/mut/m1[0-9].py; do python3 tools/mut/mut.py $f $1 n; done) > /tmp/n.log 2>&1; grep -c "quiet OK" /tmp/n.log; grep -A3 "FALSE ALARM\|NOT FOUND\|BUILD FAILS\|Traceback" /tmp/n.log | cut -c1-220 | head -${2:-30}
