#!/bin/bash
# run.sh ID TIER [--case N]: builds /verif/checks/ID.cpp against the current /repo/src and runs it.
# Exit 0: held; 1: VIOLATION printed; anything else: error of the check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1; tier=${2:-quick}; shift 2
export LC_ALL=C.UTF-8 VERIF_DIR=$here VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
src=$here/checks/$id.cpp
repo=${REPO_DIR:-/repo}
mkdir -p "$here/build" "$here/evidence"
flags="-std=c++17 -O1 -g1 -w -D_GLIBCXX_ASSERTIONS"
# a harness may ask for other flags on a line: // MC_FLAGS: ...
extra=$(sed -n 's,^// MC_FLAGS: ,,p' "$src")
key=$( { cat "$src" "$here"/mc/*.hpp "$here"/checks/*.hpp "$here"/compat/*.hpp; find "$repo/src" -type f \( -name '*.hpp' -o -name '*.cpp' -o -name '*.h' \) -not -path '*/test/*' -print0 | sort -z | xargs -0 cat; echo "$flags $extra $repo"; } | sha256sum | cut -c1-24)
bin=$here/build/$id-$key
if [ ! -x "$bin" ]; then
    rm -f "$here"/build/$id-*
    if ! g++ $flags $extra -include "$here/compat/msvc_compat.hpp" -I"$here/mc" -I"$here/checks" -I"$repo/src" -I"$repo/src/ml" -I"$repo/src/lang/statements" \
        "$src" -o "$bin.tmp.$$" -ltbb -ldl -lpthread 2>"$here/build/$id.log"; then
        echo "harness error: $id does not build:"; head -c 4000 "$here/build/$id.log"
        exit 2
    fi
    mv "$bin.tmp.$$" "$bin"
fi
exec "$bin" --tier "$tier" "$@"
