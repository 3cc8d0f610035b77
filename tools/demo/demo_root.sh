#!/bin/bash
# Lays out the stand-in for the ROOT library, which is missing here (stub__a__b.h is a/b.h), then generates the small
# datamodel beside this file with /repo's generator, compiles it, the podio sources and demo.cc and runs the result.
# Exit 0: behaves as promised.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
FLAGS="-std=c++20 -O0 -g1 -w @FLAGS@"
mkdir -p "$W/gen" "$W/o" "$W/inc/podio" "$W/tmp" "$W/stubs"
export TMPDIR=$W/tmp PYTHONDONTWRITEBYTECODE=1
python3 "$R/python/podio_class_generator.py" -q "$D/demo.yaml" "$W/gen" demo ROOT || exit 2
sed -e 's/@podio_VERSION_[A-Z]*@/7/' "$R/podioVersion.in.h" > "$W/inc/podio/podioVersion.h"
for f in "$D"/stub__*; do t=$(basename "$f" | sed 's,^stub__,,;s,__,/,g'); mkdir -p "$W/stubs/$(dirname "$t")"; cp "$f" "$W/stubs/$t"; done
INC="-DPODIO_ENABLE_RNTUPLE=1 -I$W/stubs -I$W/inc -I$W/inc/podio -I$R/include -I$R/src -I$W/gen -I$W/gen/demo"
CORE="CollectionIDTable.cc GenericParameters.cc DatamodelRegistry.cc DatamodelRegistryIOHelpers.cc UserDataCollection.cc CollectionBufferFactory.cc MurmurHash3.cpp SchemaEvolution.cc"
{
  for s in $CORE; do echo "$R/src/$s"; done
  for s in ROOTFrameData ROOTReader ROOTWriter RNTupleReader RNTupleWriter RootHelpers; do echo "$R/src/$s.cc"; done
  ls "$W"/gen/src/*.cc
  echo "$D/demo.cc"
} | xargs -P 8 -I{} sh -c 'g++ '"$FLAGS $INC"' -c "{}" -o "'"$W"'/o/$(basename "{}").o"' || exit 2
g++ $FLAGS "$W"/o/*.o -o "$W/demo" -pthread || exit 2
cd "$W" && ASAN_OPTIONS=detect_leaks=@LEAKS@ timeout 120 ./demo
rc=$?
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
