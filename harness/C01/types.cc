#include "c01.hh"

using namespace c01;
using namespace aleph::topology;

// Other index, vertex and data types
SECTION( types, 2500, 20000 )
{
  auto K = input( c );
  for( auto& w : K.w ) w = std::floor( w * 2 );
  switch( c.k % 4 )
  {
  case 0: configuration<representations::Vector<int>, Simplex<float,unsigned short>>( c, K, "Vector<int>" ); break;
  case 1: configuration<representations::Vector<std::size_t>, Simplex<double,int>>( c, K, "Vector<size_t>" ); break;
  case 2: configuration<representations::Set<short>, Simplex<short,unsigned short>>( c, K, "Set<short>" ); break;
  default: configuration<representations::List<unsigned short>, Simplex<long,std::size_t>>( c, K, "List<unsigned short>" ); break;
  }
}
