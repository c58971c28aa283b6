#!/bin/bash
# regenerate planted bugs whose patch no longer applies to /repo's HEAD
cd "$(dirname "$0")/.."
for d in seeded/*/; do
  id=$(basename "$d")
  if ! git -C /repo apply --check "$PWD/$d/patch.diff" 2>/dev/null; then
    for f in tools/seeds/*.py; do grep -q "id='$id'" "$f" && python3 tools/mkseed.py "$f" "$id"; done
  fi
done
