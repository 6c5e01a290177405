#!/bin/bash
# Builds everything once (checks rebuild what changed).
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
cut -d' ' -f2- check_table | sort -u | while read -r line; do
  variant=asan; h=(); p=(); ap=()
  for w in $line; do case $w in ttl:*) variant=asanttl; h+=("${w#ttl:}");; bin:*) p+=("${w#bin:}");; abin:*) ap+=("${w#abin:}");; *) h+=("$w");; esac; done
  ./build.sh $variant "${h[@]}" || exit 3
  if [ ${#ap[@]} -gt 0 ]; then ./build.sh asanbin "${ap[@]}" || exit 3; fi
  if [ ${#p[@]} -gt 0 ]; then ./build.sh rel "${p[@]}" || exit 3; fi
done
