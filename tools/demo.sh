#!/bin/bash
# compiles demo.cc beside this script against the built library and runs it in a scratch directory
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -w -fno-access-control -I"$R/include" -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi -isystem /usr/include/petsc -isystem /usr/include/trilinos -isystem /usr/include/hdf5/openmpi -isystem /usr/include/scotch -isystem /usr/include/suitesparse -isystem /usr/include/opencascade -isystem /usr/include/slepc \
  "$D/demo.cc" -o "$T/demo" -L"$R/_build" -lbem_fma-lib -Wl,-rpath,"$R/_build" -l:libdeal.ii.so -lmpi -lmpi_cxx -ltbb -lTKernel -ltrilinos_epetra -ltrilinos_teuchoscore -ltrilinos_teuchosparameterlist -ltrilinos_teuchoscomm -ltrilinos_teuchosnumerics -ltrilinos_aztecoo -ltrilinos_ifpack || exit 99
cd "$T" && OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self DEAL_II_NUM_THREADS=1 OMP_NUM_THREADS=1 timeout 250 ./demo
