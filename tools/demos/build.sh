#!/bin/bash
# build.sh SRC OUT [server|client]: compiles a demo against the built libraries of the repository in the current directory
R=$(pwd)
Q=/usr/include/x86_64-linux-gnu/qt5
INC="-I$R -I$R/common -I$R/libnymea-remoteproxy -I$R/libnymea-remoteproxyclient -I$R/_build"
for m in QtCore QtNetwork QtWebSockets; do INC="$INC -I$Q/$m"; done
case "$(sed -n 's,^// *link: *,,p' "$1")" in
  server) LIB="-L$R/_build/libnymea-remoteproxy -lnymea-remoteproxy -Wl,-rpath,$R/_build/libnymea-remoteproxy";;
  client) LIB="-L$R/_build/libnymea-remoteproxyclient -lnymea-remoteproxyclient -Wl,-rpath,$R/_build/libnymea-remoteproxyclient";;
  slip) LIB="$R/common/slipdataprocessor.cpp";;
esac
exec g++ -std=c++17 -fPIC -O0 -w -I"$Q" $INC "$1" -o "$2" $LIB -lQt5Network -lQt5WebSockets -lQt5Core -lpthread
