#!/bin/bash
# show a replay file briefly; usage: rp.sh file [verbose native rerun]
f=$1; grep -v '^param' $f | sed -n '3,4p;5,60p' | cut -c1-160
