#!/bin/bash
# Warms the build cache; every check builds what it needs from /repo itself.
cd "$(dirname "$0")" || exit 1
d="$(mktemp -d /tmp/verif.XXXXXX)" || exit 1
trap 'rm -rf "$d"' EXIT
for k in seq sch race; do
	./build.sh "$k" "$d" || exit 1
done
