#!/bin/bash
# check.sh PROP [--replay FILE]: rebuilds the simulation from /repo's working
# tree and decides one property.  0 held, 1 violated, anything else: no answer.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 3
prop=${1:?property}; shift
case $prop in
  C2[0-9]|C30|C33) group=eco ;;
  C17) group=svc ;;
  *) group=hd ;;
esac
bin=$("$V/build.sh" $group) || { echo "no answer: the simulation of this tree could not be built" >&2; exit 3; }
if [ "$1" = --replay ]; then exec "$bin" replay -file "$2"; fi
if [ -n "$LIST" ]; then exec "$bin" list; fi
exec "$bin" check -prop "$prop" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" \
  -evidence "${VERIF_EVIDENCE:-$V/evidence/$prop.json}" -replays "${VERIF_REPLAYS:-$V/replays}" -known "$V/KNOWN_FINDINGS" "$@"
