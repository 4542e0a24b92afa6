# sourced by demo.sh: compiles main.cpp beside it with the sources of the current directory and runs it in a scratch folder
# usage: build_and_run "<sources>" <nproc> [arguments]
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
ALL="Sylinder/SylinderSystem Sylinder/Sylinder Sylinder/SylinderConfig Constraint/BCQPSolver Constraint/ConstraintCollector Constraint/ConstraintOperator Constraint/ConstraintSolver Boundary/Boundary Trilinos/TpetraUtil Util/Base64"
build_and_run() {
    local srcs="$1" np="$2"
    shift 2
    local fl="-DPARTICLE_SIMULATOR_MPI_PARALLEL -DPARTICLE_SIMULATOR_THREAD_PARALLEL -Dkiss_fft_scalar=double -I$R -I/usr/include/trilinos -I$D -isystem /usr/include/vtk-9.1 -isystem /usr/include/eigen3 -include /opt/vp/compat/trilinos13.hpp -O1 -DNDEBUG -std=c++14 -fopenmp -fno-access-control -w"
    local pids="" p f
    for f in $srcs; do mpicxx $fl -c "$R/$f.cpp" -o "$T/$(basename $f).o" & pids="$pids $!"; done
    mpicxx $fl -c "$D/main.cpp" -o "$T/demo_main.o" & pids="$pids $!"
    for p in $pids; do wait $p || { echo "compilation failed"; exit 3; }; done
    local libs
    libs=$(ninja -C "$R/_build" -t commands | grep "SylinderSystem_main.cpp.o Sylinder" | tail -1 | sed 's/.*-o Sylinder\/SylinderSystem_main //; s/ && :$//')
    mpicxx "$T"/*.o -fopenmp -o "$T/demo" $libs || { echo "link failed"; exit 3; }
    export LD_LIBRARY_PATH=/opt/vp/compat OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=${THREADS:-2} OMPI_MCA_rmaps_base_oversubscribe=1
    cd "$T"
    if [ "$np" = 1 ]; then timeout 100 ./demo "$@"; else timeout 100 mpirun --oversubscribe -np "$np" ./demo "$@"; fi
}
