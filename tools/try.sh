#!/bin/bash
# try.sh NAME PATCH|-R:COMMIT PROP... : run checks against a patched scratch copy of /repo.
name=$1; patch=$2; shift 2
d=/tmp/w/try-$name
rm -rf "/tmp/w/try-$name"; mkdir -p /tmp/w
cp -a /repo "$d"
cd "$d" || exit 3; git update-index -q --refresh
case "$patch" in
  -R:*) git revert -n "${patch#-R:}" || { echo "$name: patch does not apply"; exit 3; } ;;
  *) git apply "$patch" || { echo "$name: patch does not apply"; exit 3; } ;;
esac
cd /verif
for p in "$@"; do
  out=$(VERIF_REPO="$d" VERIF_SEED=${VERIF_SEED:-1} timeout 900 /opt/venv/bin/python -B harness/run.py $p 2>&1); rc=$?
  echo "$name $p rc=$rc $(echo "$out" | tail -2 | head -c 700 | tr '\n' ' ')"
done
rm -rf "/tmp/w/try-$name"
