#!/bin/bash
# show.sh prop idx [seed] : result and sanitizer report (symbolised) of one run; the trace goes to /tmp/show.err
E=$(python3 /verif/tools/build.py ${V:-A} | awk '{print $2}')
SIM_SHOW=1 $E one --prop $1 --idx $2 --seed ${3:-1} --trace >/tmp/show.out 2>/tmp/show.err
cut -c1-600 /tmp/show.out
grep -E "ERROR: Addr|^ +#[0-9]+ 0x|freed by|allocated by" /tmp/show.err | head -${L:-36} | while read -r l; do a=$(echo "$l" | grep -oE "\+0x[0-9a-f]+\)" | tr -d '+)'); if [ -n "$a" ]; then echo "   $(addr2line -f -C -s -e $E $a | tr '\n' ' ' | cut -c1-110)"; else echo "$l" | cut -c1-120; fi; done
