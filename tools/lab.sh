#!/bin/bash
# lab.sh NAME CMD...: run CMD with copies of /repo and /verif bind-mounted over the real ones in a private mount namespace,
# so that experiments leave the working trees alone. The copies live in /tmp/lab.NAME (SYNC=1 refreshes them).
N=$1; shift; L=/tmp/lab.$N
[ -d $L ] || SYNC=1
if [ -n "$SYNC" ]; then mkdir -p $L; rsync -a --delete /repo/ $L/repo/ 2>/dev/null || { mkdir -p $L/repo; cp -a /repo/. $L/repo/; }
  rsync -a --delete /verif/ $L/verif/ 2>/dev/null || { mkdir -p $L/verif; cp -a /verif/. $L/verif/; }; fi
exec unshare -Urm bash -c "mount --bind $L/repo /repo && mount --bind $L/verif /verif && cd /verif && \"\$@\"" lab "$@"
