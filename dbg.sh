#!/bin/bash
# dbg.sh PROP HARNESS hooks bytes map [cbmc args]: encode one harness and show what symex unwinds
P=$1 H=$2 K=$3; export RUSTFLAGS="--cfg lightyear_verif" LIGHTYEAR_VERIF_HOOKS=/verif/hooks/$K VERIF_BYTES_CAP=$4 VERIF_MAP_CAP=$5 VERIF_DEQ_CAP=${DEQ:-4} VERIF_VEC_CAP=${VEC:-4} VERIF_VECB_CAP=${VECB:-16}
shift 5
cd /verif/harness/kani && ulimit -v 20000000 && timeout ${T:-200} cargo kani --target-dir /verif/target/kani-b$VERIF_BYTES_CAP-m$VERIF_MAP_CAP --features ${P,,} -Z unstable-options -Z stubbing --harness mods::${P,,}::$H --exact --no-assertion-reach-checks --output-format old --cbmc-args --verbosity 9 "$@"
