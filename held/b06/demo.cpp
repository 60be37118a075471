#include "common.hpp"

int run(int rank, int size) {
  Demo d({8, 2}, ParticleSpec(), 0, 1);
  d.add(std::vector<int>(10, 0), rank * 10);
  const int other = 1 - rank;
  particle_loop(d.A, [=](auto R, auto ID) { R.at(0) = -1; R.at(1) = (ID.at(0) % 3 == 0) ? other : rank; }, Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(Sym<INT>("ID")))->execute();
  d.A->local_move();
  auto rows = d.A->get_cell(Sym<INT>("ID"), 0)->nrow;
  EXPECT((int)d.A->get_npart_cell(0) == rows);
  d.add({0, 1}, 100 + rank * 10);
  auto ids = d.ids();
  EXPECT(ids.count(100 + rank * 10));
  EXPECT((int)ids.size() == rows + 2);
  EXPECT((int)d.A->get_npart_local() == rows + 2);
  d.free();
  return 0;
}
