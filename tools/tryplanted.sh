#!/bin/bash
# tryplanted.sh ID...: run the check of each planted bug's property against it, in a private mount
# namespace in which a patched copy stands at /repo and a copy of /verif at /verif. Prints CAUGHT or MISSED.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=${CHECK:-$(jq -r .property "$d/meta.json")}
  root=$(mktemp -d /tmp/try.XXXXXXXX)
  cp -a /repo "$root/repo"
  mkdir "$root/verif"; git -C /verif archive HEAD -- . ":!seeded" | tar xf - -C "$root/verif"
  [ -n "${TARGET:-}" ] && cp -a "$TARGET" "$root/verif/target"
  if ! git -C "$root/repo" apply "$d/patch.diff"; then echo "$id NOAPPLY"; rm -rf "$root"; continue; fi
  rm -rf "$root/repo/target"
  start=$(date +%s)
  unshare -m bash -c "mount --bind $root/repo /repo && mount --bind $root/verif /verif && cd /verif && timeout 900 ./check.sh $prop ${TIER:-quick}" > "/tmp/try.$id.$prop.log" 2>&1
  rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "/tmp/try.$id.$prop.log"; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
  echo "$id $prop $r $(( $(date +%s) - start ))s $(grep -m1 -v '^KNOWN' /tmp/try.$id.$prop.log | cut -c1-150)"
  rm -rf "$root"
done
