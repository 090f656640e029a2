#!/bin/bash
# tools/coverage.sh OUT BUDGET P01 [P02...]: which source lines the checks run (clang coverage), as OUT/FILE.txt listings of lines never run
set -e
OUT=$1 BUDGET=$2; shift 2
D=$(mktemp -d /tmp/cov.XXXXXX); chmod 755 "$D"
cp -a /verif/pbt /verif/config /verif/known_findings.jsonl "$D"; mkdir -p "$D/evidence" "$D/replays" "$D/prof" "$OUT"; chmod 1777 "$D/prof"
python3 - "$D" <<'P'
import sys
d = sys.argv[1]
p = d + "/pbt/build.py"; t = open(p).read()
t = t.replace('"plain": ["-O1", "-g0", "-w"]', '"plain": ["-O1", "-g1", "-w", "-fprofile-instr-generate", "-fcoverage-mapping"]')
t = t.replace('LDVAR = {"plain": []', 'LDVAR = {"plain": ["-fprofile-instr-generate"]').replace('"g++" if variant == "plain" else "clang++"', '"clang++"')
open(p, "w").write(t)
p = d + "/pbt/core.py"; t = open(p).read()
t = t.replace('BASE_ENV = {', 'BASE_ENV = {"LLVM_PROFILE_FILE": "%s/prof/%%m.profraw", ' % d)
open(p, "w").write(t)
P
cd "$D"
for p in "$@"; do timeout 1500 python3-vt -m pbt.main $p --budget $BUDGET 2>&1 | tail -1 || true; done
llvm-profdata-18 merge -sparse prof/*.profraw -o all.profdata
O=(); for b in .build/bin/*/*; do [ -x "$b" ] && file -b "$b" | grep -q ELF && O+=(-object "$b"); done
llvm-cov-18 report -instr-profile all.profdata "${O[@]}" 2>/dev/null | grep -E "apertium/|Filename" > "$OUT/report.txt" || true
llvm-cov-18 show -instr-profile all.profdata "${O[@]}" -show-line-counts -format=text -output-dir="$OUT/html" >/dev/null 2>&1 || true
cd /; rm -rf "$D"
