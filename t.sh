#!/bin/bash
# t.sh PROP args...: full output in /tmp/out.$PROP; shows per-contract status counts, the first problem lines and the summary
cd /verif; P=$1; shift
timeout 1500 python3-vt irv/check.py $P -v --noevidence "$@" > /tmp/out.$P 2>&1
grep -E "^\S.* (proof|bounded|native) +(ok|refuted|unsupported)" /tmp/out.$P | awk '{n=NF; for(i=1;i<=NF;i++) if($i=="proof"||$i=="bounded"||$i=="native"){print $(i-1),$i,$(i+1)}}' | sort | uniq -c | head -${HL:-40}
grep -A3 -E "^ +(refuted|unsupported) " /tmp/out.$P | cut -c1-${CW:-260} | head -${EL:-14}; grep "wall" /tmp/out.$P | tail -1 | cut -c1-300
