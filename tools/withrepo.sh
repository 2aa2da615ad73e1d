#!/bin/bash
# withrepo.sh DIR CMD...: run CMD with the repository copy DIR mounted over /repo (private namespace)
d=$1; shift
exec unshare -Ur -m bash -c 'mount --bind "$0" /repo && cd /repo && exec "$@"' "$d" "$@"
