#!/bin/bash
# developer aid: distinct failure messages of one check (digits folded)
cd "$(dirname "$0")"; ./check.sh "$@" --keep-going > /tmp/tri.$$ 2>&1; tail -1 /tmp/tri.$$
grep -- '^---\|^ERROR' /tmp/tri.$$ | cut -c1-260 | sed 's/seed=[0-9]*/S/; s/[0-9.e+-]*[0-9]/N/g' | sort | uniq -c | sort -rn | head -${TOP:-25}
rm -f /tmp/tri.$$
