#include <neso_particles.hpp>
#include <cstdio>
#include <map>
#include <set>
using namespace NESO::Particles;
static int demo_bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); demo_bad = 1; } } while (0)
struct Demo {
  int ndim = 2; double extent;
  std::shared_ptr<CartesianHMesh> mesh; SYCLTargetSharedPtr target; DomainSharedPtr domain; ParticleGroupSharedPtr A; ParticleSpec spec;
  Demo(std::vector<int> dims, ParticleSpec extra = ParticleSpec(), int subdivision = 0, int stencil = 1, double extent = 1.0) : ndim((int)dims.size()), extent(extent) {
    mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, extent, subdivision, stencil);
    target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
    domain = std::make_shared<Domain>(mesh, CartesianHMeshLocalMapper(target, mesh));
    spec = ParticleSpec{ParticleProp(Sym<REAL>("P"), ndim, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1)};
    for (auto &x : extra.properties_real) spec.push(x);
    for (auto &x : extra.properties_int) spec.push(x);
    A = std::make_shared<ParticleGroup>(domain, spec, target);
  }
  int ncell() { return mesh->get_cell_count(); }
  // one particle per entry of cells, ids from id0
  void add(std::vector<int> cells, int id0 = 0) {
    ParticleSet ps((int)cells.size(), spec);
    for (int i = 0; i < (int)cells.size(); i++) { ps[Sym<INT>("CELL_ID")][i][0] = cells[i]; ps[Sym<INT>("ID")][i][0] = id0 + i; }
    A->add_particles_local(ps);
  }
  std::map<INT, int> ids() {  // id -> cell
    std::map<INT, int> m;
    for (int c = 0; c < ncell(); c++) { auto d = A->get_cell(Sym<INT>("ID"), c); for (int r = 0; r < d->nrow; r++) m[d->at(r, 0)] = c; }
    return m;
  }
  void free() { A.reset(); target->free(); mesh->free(); }
};
int run(int rank, int size);
int main(int argc, char **argv) {
  int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
  int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
  run(rank, size);
  int g = 0; MPI_Allreduce(&demo_bad, &g, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  if (rank == 0) std::printf(g ? "BROKEN\n" : "OK\n");
  return g;
}
