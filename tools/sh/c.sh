#!/bin/bash
for f in "$@"; do echo "=== $f"; awk 'BEGIN{s=0} /^(from|import|class|def|[A-Za-z_]+ *=)/{s=1} s{print}' "$f"; done
