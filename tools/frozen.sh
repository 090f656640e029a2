#!/bin/bash
# tools/frozen.sh CMD...: runs CMD in a copy of /verif's working tree, so that editing can go on (the build cache is shared)
D=$(mktemp -d /tmp/frozen.XXXXXX)
chmod 755 "$D"; cp -a /verif/pbt /verif/config /verif/tools /verif/known_findings.jsonl "$D"
mkdir -p /verif/.build "$D/evidence" "$D/replays"; ln -s /verif/.build "$D/.build"
for f in /verif/*; do b=$(basename "$f"); [ -e "$D/$b" ] || [ "$b" = seeded ] || ln -s "$f" "$D/$b"; done
cd "$D" && "$@"
rm -rf "$D"
