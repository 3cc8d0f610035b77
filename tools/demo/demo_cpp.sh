#!/bin/bash
# Generates the small datamodel beside this file with /repo's generator, compiles it, the podio
# sources and demo.cc and runs the result. Exit 0: behaves as promised.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
FLAGS="-std=c++20 -O0 -g1 -w @FLAGS@"
mkdir -p "$W/gen" "$W/o" "$W/inc/podio" "$W/tmp"
export TMPDIR=$W/tmp PYTHONDONTWRITEBYTECODE=1
if [ -f "$D/demo.yaml" ]; then
  python3 "$R/python/podio_class_generator.py" -q "$D/demo.yaml" "$W/gen" demo ROOT || exit 2
fi
sed -e 's/@podio_VERSION_[A-Z]*@/1/' "$R/podioVersion.in.h" > "$W/inc/podio/podioVersion.h"
INC="-I$W/inc -I$W/inc/podio -I$R/include -I$W/gen -I$W/gen/demo"
CORE="CollectionIDTable.cc GenericParameters.cc DatamodelRegistry.cc DatamodelRegistryIOHelpers.cc UserDataCollection.cc CollectionBufferFactory.cc MurmurHash3.cpp SchemaEvolution.cc Glob.cc"
{
  for s in $CORE; do echo "$R/src/$s"; done
  [ -d "$W/gen/src" ] && ls "$W"/gen/src/*.cc
  echo "$D/demo.cc"
} | xargs -P 8 -I{} sh -c 'g++ '"$FLAGS $INC"' -c "{}" -o "'"$W"'/o/$(basename "{}").o"' || exit 2
g++ $FLAGS "$W"/o/*.o -o "$W/demo" -pthread || exit 2
cd "$W" && ASAN_OPTIONS=detect_leaks=@LEAKS@ timeout 120 ./demo
rc=$?
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
