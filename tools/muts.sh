#!/bin/bash
# run several mutations: file of lines  CHECKS<TAB>file<TAB>old<TAB>new  (\n in old/new interpreted)
while IFS=$'\t' read -r c f o n k; do
  [ -z "$c" ] && continue
  ( r=$(timeout 400 python3 /verif/tools/mut.py "$c" "$f" "$(printf '%b' "$o")" "$(printf '%b' "$n")" $k 2>&1 | cut -c1-${W:-170}); echo "== $c: $o -> $n"; echo "$r" ) &
  while [ $(jobs -r | wc -l) -ge 6 ]; do sleep .3; done
done < "$1"; wait
