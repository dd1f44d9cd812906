#include "c01.hh"

SECTION( configurations_vector, 3000, 30000 )
{
  using namespace c01;
  auto K = input( c );
  configuration<aleph::topology::representations::Vector<unsigned>, aleph::topology::Simplex<double,unsigned>>( c, K, "Vector" );
}
