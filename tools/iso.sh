#!/bin/bash
# iso.sh <command...>: runs the command in a mount namespace where /repo is a private copy (safe while vcheck uses /repo)
D=$(mktemp -d /tmp/iso-XXXXXX); cp -a --reflink=auto /repo "$D/repo"; git -C "$D/repo" worktree prune 2>/dev/null
unshare -m bash -c 'mount --bind "$0/repo" /repo && shift 0 && "$@"' "$D" "$@"; r=$?
rm -rf "$D"; exit $r
