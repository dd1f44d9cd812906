#include "c05.hh"

using namespace c05;
namespace dist = aleph::geometry::distances;
template <class T> using PC = aleph::containers::PointCloud<T>;

SECTION( rips_brute_force, 1200, 15000 )
{
  switch( c.k % 3 )
  {
  case 0: rips<aleph::geometry::BruteForce<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "brute force, Euclidean" ); break;
  case 1: rips<aleph::geometry::BruteForce<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "brute force, Manhattan" ); break;
  default: rips<aleph::geometry::BruteForce<PC<float>,dist::Euclidean<float>>>( c, Metric::Euclidean, "brute force, Euclidean, float" ); break;
  }
}

SECTION( rips_brute_force_large, 12, 150 )
{
  if( c.k % 2 ) rips<aleph::geometry::BruteForce<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "BruteForce, Manhattan, large", true );
  else rips<aleph::geometry::BruteForce<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "BruteForce, Euclidean, large", true );
}
