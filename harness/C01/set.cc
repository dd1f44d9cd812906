#include "c01.hh"

SECTION( configurations_set, 3000, 30000 )
{
  using namespace c01;
  auto K = input( c );
  configuration<aleph::topology::representations::Set<unsigned>, aleph::topology::Simplex<double,unsigned>>( c, K, "Set" );
}
