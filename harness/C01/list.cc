#include "c01.hh"

SECTION( configurations_list, 3000, 30000 )
{
  using namespace c01;
  auto K = input( c );
  configuration<aleph::topology::representations::List<unsigned>, aleph::topology::Simplex<double,unsigned>>( c, K, "List" );
}
