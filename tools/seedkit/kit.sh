# sourced by demo.sh (cwd: the built repository); W is a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
INC="-isystem /opt/vp/compat -I$PWD/src $(find "$PWD/src" -type d | sed 's/^/-I/' | tr '\n' ' ') -I$HERE"
LIBS="-l:libst.a -lhttp_parser -lrtmp -lsrt -lssl -lcrypto -lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample -lswscale -lpthread"
OBJS=$(find _build/CMakeFiles/vp_objs.dir -name '*.o')
# prog NAME [extra flags]: builds NAME.cpp of this folder against the repository's objects
prog() { g++ -std=gnu++14 -w -O0 $INC $2 "$HERE/$1.cpp" $OBJS $LIBS -o "$W/$1" || exit 99; }
# srcs NAME FLAGS file...: the same, but compiling the named source files anew with FLAGS
srcs() { n=$1; f=$2; shift 2; rest=""; for o in $OBJS; do k=1; for s in "$@"; do case $o in *"/$s.o") k=0;; esac; done; [ $k = 1 ] && rest="$rest $o"; done
  fs=""; for s in "$@"; do fs="$fs $(find src -path "*/$s")"; done
  g++ -std=gnu++14 -w -g1 $f $INC "$HERE/$n.cpp" $fs $rest $LIBS -o "$W/$n" || exit 99; }
# server: builds the real server as $W/spsd
server() { (cd "$W" && for f in src/main/sps_main_sps.cpp src/install/sps_install.cpp src/install/sps_install_modules.cpp; do echo; done) >/dev/null
  g++ -std=gnu++14 -w -O0 $INC src/main/sps_main_sps.cpp src/install/sps_install.cpp src/install/sps_install_modules.cpp "$HERE/tables.cpp" $OBJS $LIBS -o "$W/spsd" || exit 99; }
