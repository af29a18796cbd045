# sourced by demo.sh: helpers to compile a program against the built library and run it with MPI
HERE=$(cd "$(dirname "$0")" && pwd)
WORK=$(mktemp -d /tmp/demo.XXXXXX)
trap 'cd /; rm -rf "$WORK"' EXIT
REPO=$(pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_mpi_yield_when_idle=1 OMP_WAIT_POLICY=passive TMPDIR=/tmp
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
compile() { # compile SRC OUT
  mpicxx -std=c++17 -O1 -march=x86-64-v2 -fopenmp -DNDEBUG -DTIMING -DDISCOTEC_USE_LZ4 -I"$REPO/src" -I"$REPO/third_level_manager" -I"$HERE" \
    "$1" -o "$2" "$REPO/_build/src/libdiscotec.a" -lboost_serialization -lboost_program_options -lboost_system -lboost_date_time -lglpk -llz4 \
    || { echo "demo does not compile"; exit 3; }
}
run() { # run NPROCS SECONDS CMD...
  local n=$1 t=$2; shift 2
  timeout -k 5 "$t" mpirun --oversubscribe -np "$n" "$@"
}
