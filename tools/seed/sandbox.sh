#!/bin/bash
# sandbox.sh CMD...: runs CMD with private copies of /repo, /verif and /opt/vp mounted in their places.
S=$(mktemp -d /tmp/sbXXXXXX)
cp -a /repo $S/repo && cp -a /verif $S/verif && cp -a /opt/vp $S/vp || exit 1
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && mount --bind "$0/vp" /opt/vp && cd /verif && shift 0 && "$@"' $S "$@"
r=$?
rm -rf "$S"
exit $r
