#!/bin/bash
# check.sh Cxx [--replay FILE]: builds from /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
case "$1" in
    C20|C21|C22|C23|C25|C26|C27) "$here/build.sh" cli "$1" || exit 2 ;;
    *) "$here/build.sh" "$1" || exit 2 ;;
esac
export VERIF_ROOT=$here VERIF_CLI=$here/target/cli/release
# a runaway allocation ends the run with a signal the harness looks into, instead of taking the machine down
ulimit -v 20000000
exec "$here/target/bin/vharness-$1" "$@"
