#!/bin/bash
# check.sh <property> [quick|thorough] [extra arguments of the harness]
# Rebuilds from /repo's working tree, runs the property's suites, writes evidence/<property>.json.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
P=$1; T=${2:-quick}; shift; shift
line=$(grep "^$P " check_table) || { echo "unknown property $P"; exit 3; }
set -- $(echo "$line" | cut -d' ' -f2-) -- "$@"
variant=asan; progs=()
case $1 in ttl:*) variant=asanttl;; esac
harness=(); aprogs=()
while [ "$1" != "--" ]; do
  case $1 in
    ttl:*) harness+=("${1#ttl:}");;
    bin:*) progs+=("${1#bin:}");;
    abin:*) aprogs+=("${1#abin:}");;
    *) harness+=("$1");;
  esac
  shift
done
shift
./build.sh $variant "${harness[@]}" || exit 3
if [ ${#aprogs[@]} -gt 0 ]; then ./build.sh asanbin "${aprogs[@]}" || exit 3; fi
if [ ${#progs[@]} -gt 0 ]; then ./build.sh rel "${progs[@]}" || exit 3; fi
name=vt-$(printf '%s-' "${harness[@]}")x
exec ./build/$variant/h/$name "$P" --tier "$T" "$@"
