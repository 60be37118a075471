#!/bin/bash
# Builds demo.cpp against the library in /repo/_build and runs it on 2 rank(s).
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root OCL_ICD_FILENAMES=/opt/sycl/lib/libintelocl.so ONEAPI_DEVICE_SELECTOR=opencl:cpu
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
P=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
M=/usr/lib/x86_64-linux-gnu
/opt/sycl/bin/syclcxx -fsycl -w -O1 -DNDEBUG -std=c++17 -DNESO_PARTICLES_DEVICE_TYPE_CPU -DNESO_PARTICLES_HDF5 -DNESO_PARTICLES_PETSC \
  -DGPU_SELECTOR=0 -DRESTRICT=__restrict -DNESO_PARTICLES_VERSION_MAJOR=0 -DNESO_PARTICLES_VERSION_MINOR=10 -DNESO_PARTICLES_VERSION_PATCH=0 \
  -I/repo/include -I$P/include -isystem $M/openmpi/include -isystem $M/openmpi/include/openmpi -isystem /usr/include/hdf5/openmpi \
  -c "$D/demo.cpp" -o "$T/demo.o" || exit 3
/opt/sycl/bin/syclcxx -fsycl -O1 "$T/demo.o" -o "$T/demo" -Wl,-rpath,/repo/_build:$M/openmpi/lib:$M/hdf5/openmpi:$P/lib /repo/_build/libNESO-Particles.so \
  $M/openmpi/lib/libmpi_cxx.so $M/openmpi/lib/libmpi.so $M/hdf5/openmpi/libhdf5.so $P/lib/libpetsc_real.so || exit 3
cd "$T" && export LD_LIBRARY_PATH=/opt/sycl/lib

timeout 200 mpirun -n 2 "$T/demo"
