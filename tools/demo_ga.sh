#!/bin/bash
# Builds demo.c against the tree's own libraries and runs it. Environment of the job: one machine, no network.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=${TREE:-ts}; n=${RANKS:-4}
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 \
 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader \
 OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none TMPDIR="$w"
b=$r/_build/$t
case $t in
 ts|pr) l="$b/.libs/libga.a $b/comex/.libs/libarmci.a -lgfortran -lquadmath -lm -lrt -lpthread";;
 *) l="$b/.libs/libarmci.a -lm -lrt -lpthread";;
esac
[ -f $b/comex/.libs/libarmci.a ] || l="$b/.libs/libarmci.a -lm -lrt -lpthread"
mpicc -w -o "$w/demo" "$d/demo.c" -I$b -I$b/ma -I$b/gaf2c -I$b/global/src -I$r/global/src -I$r/ma -I$r/gaf2c -I$r/comex -I$r/comex/src-common -I$r/comex/src-armci \
 -I$r/pario/dra -I$r/pario/eaf -I$r/pario/elio -I$r/pario/sf -I$r/tcgmsg -I$r/LinAlg/lapack+blas $l || exit 2
cd "$w"; timeout 120 mpirun -n $n ./demo > out 2>&1; rc=$?
tail -5 out; [ $rc = 0 ] && grep -q DEMO-OK out
