#!/bin/bash
# seedcheck.sh ID...: runs the check of each planted bug's property against a
# scratch copy of /repo with the bug applied.
for id in "$@"; do
  w=/tmp/sc/$id; rm -rf "$w"; mkdir -p "$w"; git clone -q /repo "$w/r"
  (cd /repo && git ls-files -o -i --exclude-standard) | (cd /repo && cpio -pdm --quiet "$w/r" 2>/dev/null)
  git -C "$w/r" apply "/verif/seeded/$id/patch.diff" || continue
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  ./bin/vsymgo -verif /verif -repo "$w/r" -prop "$p" > "$w/log" 2>&1; e=$?
  echo "$id: $p exit=$e $(grep -a -m1 -A2 '^VIOLATION' "$w/log" | tr '\n' ' ' | cut -c1-220)"
  rm -rf "/tmp/sc/$id/r"
done
