# allchecks.sh [seed]: every quick check, one after another; prints what is not quiet
cd "$(dirname "$0")/.."
for i in $(seq -w 1 25); do
  VERIF_SEED=${1:-1} VERIF_TIER=quick python3-vt check.py C$i > /tmp/allchecks.out 2>&1; rc=$?
  grep -v "^KNOWN" /tmp/allchecks.out | sed "s/^/[rc=$rc] /"
done
rm -f /tmp/allchecks.out
