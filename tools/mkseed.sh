#!/bin/bash
# mkseed.sh ID : takes the current diff of /tmp/mut/r as the patch, and stdin as meta.json; demo.cpp must already be in seeded/ID
set -e
ID=$1; S=$(dirname "$0")/../seeded/$ID; mkdir -p $S
git -C /tmp/mut/r diff > $S/patch.diff
cat > $S/meta.json
[ -f $S/demo.sh ] || cat > $S/demo.sh <<'D'
#!/bin/bash
# run in the repository's root after the build
D=$(dirname "$(readlink -f "$0")")
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w -DNDEBUG -DLINUX -DERICWTOOLS_VERSION='"demo"' -Iinclude -I. "$D/demo.cpp" -o "$T/demo" -Wl,--unresolved-symbols=ignore-all LIBS -lfmt -ltbb -ltbbmalloc -lpthread || exit 3
cd "$T" && ./demo
D
sed -i "s#LIBS#${LIBS:-_build/common/libcommon.a}#" $S/demo.sh
chmod +x $S/demo.sh
git -C /tmp/mut/r checkout -q -- .
