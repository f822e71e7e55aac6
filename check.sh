#!/bin/sh
# check.sh <property>: builds the simulator against /repo's working tree and runs one check.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
case "$1" in
C18) part=interval bin=plsim-interval ;;
*) part="" bin=plsim ;;
esac
sh "$here/build.sh" $part
export PLSIM_ROOT="$here"
exec "$here/sim/target/release/$bin" check "$1"
