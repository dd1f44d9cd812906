#include "c05.hh"

using namespace c05;
namespace dist = aleph::geometry::distances;
template <class T> using PC = aleph::containers::PointCloud<T>;

SECTION( rips_flann, 1200, 15000 )
{
  switch( c.k % 3 )
  {
  case 0: rips<aleph::geometry::FLANN<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "FLANN, Euclidean" ); break;
  case 1: rips<aleph::geometry::FLANN<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "FLANN, Manhattan" ); break;
  default: rips<aleph::geometry::FLANN<PC<float>,dist::Euclidean<float>>>( c, Metric::Euclidean, "FLANN, Euclidean, float" ); break;
  }
}

SECTION( rips_flann_large, 12, 150 )
{
  if( c.k % 2 ) rips<aleph::geometry::FLANN<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "FLANN, Manhattan, large", true );
  else rips<aleph::geometry::FLANN<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "FLANN, Euclidean, large", true );
}
