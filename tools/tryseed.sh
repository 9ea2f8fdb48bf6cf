#!/bin/bash
# tryseed.sh [-n] id...: confirm planted bugs in scratch copies of /repo (build, 32 tests, demo) and run their property's check
# on them. -n: only the check. Runs 4 at a time.
one() {
  id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/tryseed.XXXXXX); r=$w/r
  p=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' $s/meta.json)
  cp -a /repo $r
  line="$id $p"
  if [ -z "$NOCONF" ]; then
    (cd $r && bash $s/demo.sh >$w/d0 2>&1); line="$line demo-base=$?"
  fi
  git -C $r apply $s/patch.diff || line="$line NOAPPLY"
  if [ -z "$NOCONF" ]; then
    (cd $r && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$r PYTHONHASHSEED=0 flock /tmp/tryseed.lock /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/saltlib tests >$w/t 2>&1)
    line="$line tests=[$(tail -1 $w/t)]"
    (cd $r && bash $s/demo.sh >$w/d1 2>&1); line="$line demo-bug=$?"
    tail -1 $w/d1 | cut -c1-150 >$w/d1t
  fi
  # the replay directory of the check is inside /verif: let each write there, then remove
  out=$(cd /verif && VERIF_REPO=$r timeout 900 ./check.sh $p 2>&1 </dev/null); rc=$?
  line="$line CHECK=$rc"
  echo "$line"; [ -f $w/d1t ] && sed 's/^/      demo: /' $w/d1t
  echo "$out" | grep -B3 '^VIOLATION' | cut -c1-220 | sed 's/^/      /' | tail -3
  /bin/rm -rf $w
}
export -f one
[ "$1" = -n ] && { export NOCONF=1; shift; }
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
