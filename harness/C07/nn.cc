#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Infinity.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/geometry/distances/Traits.hh>
#include <aleph/geometry/distances/Wrapper.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

using namespace vp;
namespace dist = aleph::geometry::distances;
template <class T> using PC = aleph::containers::PointCloud<T>;
template <class C, class D> using BF = aleph::geometry::BruteForce<C,D>;
template <class C, class D> using FL = aleph::geometry::FLANN<C,D>;

namespace
{

template <class T> PC<T> toCloud( const Points& P )
{
  PC<T> C( P.size(), P[0].size() );
  for( std::size_t i = 0; i < P.size(); i++ ) { std::vector<T> p( P[i].begin(), P[i].end() ); C.set( i, p.begin(), p.end() ); }
  return C;
}

template <class NN> void query( Ctx& c, Metric m, const std::string& name, std::size_t many = 0 )
{
  using T = typename NN::ElementType; using I = typename NN::IndexType; double tol = std::is_same<T,float>::value ? 2e-5 : 1e-12;
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, c.k % 7 == 0 ? 120 : 25 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 9 ) );
  if( many ) n = many + c.rng.below( many );
  auto P = randomPoints( c.rng, n, d, m == Metric::Hamming && c.rng.chance( 0.7 ) ? 1 : -1 ); auto D = distanceMatrix( P, m ); auto cloud = toCloud<T>( P ); NN nn( cloud );
  c.desc << name << " " << n << " points "; if( !many ) c.desc << str( P ); if( n > 1 ) c.nontrivial( dig( P ) ); c.eq( nn.size(), n, "size", name );

  std::vector<std::vector<I>> idx; std::vector<std::vector<T>> dst;
  if( c.rng.chance( 0.3 ) ) { idx.assign( 3, { 1, 2 } ); dst.assign( 2, { T( 1 ) } ); }   // stale output arguments
  for( int q = 0; q < ( many ? 1 : 3 ); q++ )
  {
    double r = safeRadius( c.rng, D ); nn.radiusSearch( static_cast<T>( r ), idx, dst );
    std::string what = name + " radius " + strx( r );
    c.expect( idx.size() == n && dst.size() == n, "radius-rows", what ); if( idx.size() != n || dst.size() != n ) return;
    for( std::size_t i = 0; i < n; i++ )
    {
      if( idx[i].size() != dst[i].size() ) { c.expect( false, "radius-row-sizes", what ); continue; }
      std::set<std::size_t> have, want; for( auto j : idx[i] ) have.insert( static_cast<std::size_t>( j ) ); for( std::size_t j = 0; j < n; j++ ) if( D[i][j] < r ) want.insert( j );
      c.expect( have == want, "radius-neighbours", what + " point " + std::to_string( i ) + " have " + str( have ) + " want " + str( want ) ); c.eq( idx[i].size(), have.size(), "radius-duplicates", what );
      for( std::size_t x = 0; x < idx[i].size(); x++ ) if( idx[i][x] < n ) c.near( dst[i][x], D[i][ idx[i][x] ], tol, "radius-distance", what + " point " + std::to_string( i ) );
    }
  }
  for( int q = 0; q < ( many ? 1 : 3 ); q++ )
  {
    unsigned k = static_cast<unsigned>( many ? c.rng.range( 1, 40 ) : q == 0 ? c.rng.range( 0, 3 ) : q == 1 ? c.rng.range( 1, int( n ) ) : c.rng.range( int( n ), int( n ) + 3 ) );
    std::string what = name + " k " + std::to_string( k ); nn.neighbourSearch( k, idx, dst ); std::size_t e = std::min<std::size_t>( k, n );
    c.expect( idx.size() == n && dst.size() == n, "knn-rows", what ); if( idx.size() != n || dst.size() != n ) return;
    for( std::size_t i = 0; i < n; i++ )
    {
      if( idx[i].size() != e || dst[i].size() != e ) { c.expect( false, "knn-count", what + " got " + std::to_string( idx[i].size() ) + "/" + std::to_string( dst[i].size() ) ); continue; }
      auto row = D[i]; std::sort( row.begin(), row.end() ); std::set<std::size_t> have;
      std::vector<double> got( dst[i].begin(), dst[i].end() ); std::sort( got.begin(), got.end() );
      for( std::size_t x = 0; x < e; x++ ) { have.insert( static_cast<std::size_t>( idx[i][x] ) ); c.near( got[x], row[x], tol, "knn-closest", what + " point " + std::to_string( i ) ); if( idx[i][x] < n ) c.near( dst[i][x], D[i][ idx[i][x] ], tol, "knn-distance", what + " point " + std::to_string( i ) ); else c.expect( false, "knn-index", what ); }
      c.eq( have.size(), e, "knn-distinct", what );
    }
  }
}

template <class D, class T> void functor( Ctx& c, Metric m, bool squared )
{
  std::size_t d = static_cast<std::size_t>( c.rng.range( 1, 17 ) ); auto P = randomPoints( c.rng, 2, d, c.rng.range( 0, 1 ) ? 1 : -1 ); std::vector<T> a( P[0].begin(), P[0].end() ), b( P[1].begin(), P[1].end() );
  c.desc << D::name() << " " << str( P ); c.nontrivial( dig( P ) ); double e = distance( P[0], P[1], m ), tol = std::is_same<T,float>::value ? 2e-5 : 1e-12;
  D f; dist::Traits<D> t; dist::Wrapper<D,std::vector<T>> w; double raw = f( a.begin(), b.begin(), d );
  c.near( raw, squared ? e * e : e, tol, "functor-value", D::name() ); c.near( t.from( static_cast<T>( raw ) ), e, tol, "functor-from", D::name() ); c.near( t.to( static_cast<T>( e ) ), squared ? e * e : e, tol, "functor-to", D::name() );
  c.near( w( a, b ), e, tol, "wrapper", D::name() ); c.near( w( b, a ), e, tol, "wrapper-symmetric", D::name() ); c.near( w( a, a ), 0, 0, "wrapper-zero", D::name() );
  double sum = 0; for( std::size_t i = 0; i < d; i++ ) sum += f.accum_dist( a[i], b[i], int( i ) ); c.near( sum, squared ? e * e : e, tol, "functor-partial", D::name() );
  // Early termination must not change the value if the bound is not reached, and must exceed the bound otherwise
  T bound = static_cast<T>( raw * c.rng.real( 0.2, 2 ) ); double early = f( a.begin(), b.begin(), d, bound );
  c.expect( Ctx::close( early, raw, tol ) || early > bound, "functor-bound", D::name() );
  c.near( f( a.data(), b.data(), d ), raw, 0, "functor-pointer", D::name() );
}

} // namespace

SECTION( brute_force, 1500, 15000 )
{
  switch( c.k % 4 )
  {
  case 0: query<BF<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "brute force, Euclidean" ); break;
  case 1: query<BF<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "brute force, Manhattan" ); break;
  case 2: query<BF<PC<double>,dist::Hamming<double>>>( c, Metric::Hamming, "brute force, Hamming" ); break;
  default: query<BF<PC<float>,dist::Euclidean<float>>>( c, Metric::Euclidean, "brute force, Euclidean, float" ); break;
  }
}

SECTION( flann, 1500, 15000 )
{
  switch( c.k % 4 )
  {
  case 0: query<FL<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "FLANN, Euclidean" ); break;
  case 1: query<FL<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "FLANN, Manhattan" ); break;
  case 2: query<FL<PC<double>,dist::Hamming<double>>>( c, Metric::Hamming, "FLANN, Hamming" ); break;
  default: query<FL<PC<float>,dist::Euclidean<float>>>( c, Metric::Euclidean, "FLANN, Euclidean, float" ); break;
  }
}

// Search structures with many nodes
SECTION( many_points, 4, 40 )
{
  switch( c.k % 4 )
  {
  case 0: query<FL<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "FLANN, Euclidean", 700 ); break;
  case 1: query<BF<PC<double>,dist::Euclidean<double>>>( c, Metric::Euclidean, "brute force, Euclidean", 400 ); break;
  case 2: query<FL<PC<double>,dist::Manhattan<double>>>( c, Metric::Manhattan, "FLANN, Manhattan", 700 ); break;
  default: query<FL<PC<float>,dist::Euclidean<float>>>( c, Metric::Euclidean, "FLANN, Euclidean, float", 700 ); break;
  }
}

// Points at exactly the radius are not closer than the radius
SECTION( strict_radius, 400, 4000 )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 2, 20 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 4 ) ); auto P = randomPoints( c.rng, n, d, 1 ); auto D = distanceMatrix( P, Metric::Manhattan ); auto cloud = toCloud<double>( P );
  double r = c.rng.range( 1, 6 ); c.desc << "radius " << r << " points " << str( P ); c.nontrivial( dig( P ) );
  std::vector<std::vector<std::size_t>> idx; std::vector<std::vector<double>> dst;
  auto verify = [&]( const std::string& name ) { bool ok = idx.size() == n; for( std::size_t i = 0; i < n && ok; i++ ) { std::set<std::size_t> have( idx[i].begin(), idx[i].end() ), want; for( std::size_t j = 0; j < n; j++ ) if( D[i][j] < r ) want.insert( j ); ok = ok && have == want; } c.expect( ok, "strict-radius", name ); };
  { BF<PC<double>,dist::Manhattan<double>> nn( cloud ); nn.radiusSearch( r, idx, dst ); verify( "brute force" ); }
  { FL<PC<double>,dist::Manhattan<double>> nn( cloud ); nn.radiusSearch( r, idx, dst ); verify( "FLANN" ); }
}

SECTION( functors, 6000, 60000 )
{
  switch( c.k % 6 )
  {
  case 0: functor<dist::Euclidean<double>,double>( c, Metric::Euclidean, true ); break;
  case 1: functor<dist::Manhattan<double>,double>( c, Metric::Manhattan, false ); break;
  case 2: functor<dist::Hamming<double>,double>( c, Metric::Hamming, false ); break;
  case 3: functor<dist::Euclidean<float>,float>( c, Metric::Euclidean, true ); break;
  case 4: functor<dist::Manhattan<float>,float>( c, Metric::Manhattan, false ); break;
  default:
    {
      auto P = randomPoints( c.rng, 2, 2 ); c.desc << "planar points " << str( P ); c.nontrivial( dig( P ) ); using Pt = aleph::PersistenceDiagram<double>::Point; Pt p( P[0][0], P[0][1] ), q( P[1][0], P[1][1] );
      c.near( dist::InfinityDistance<double>()( p, q ), distance( P[0], P[1], Metric::Infinity ), 1e-13, "infinity" ); c.near( dist::InfinityDistance<double>()( q, p ), distance( P[0], P[1], Metric::Infinity ), 1e-13, "infinity" );
      double e = distance( P[0], P[1], Metric::Euclidean ); c.near( dist::Euclidean<double>()( p, q ), e * e, 1e-12, "planar-euclidean" ); c.near( dist::Euclidean<double>()( q, p ), e * e, 1e-12, "planar-euclidean" );
      using U = aleph::PersistenceDiagram<unsigned>::Point; U a( unsigned( c.rng.range( 0, 50 ) ), unsigned( c.rng.range( 0, 50 ) ) ), b( unsigned( c.rng.range( 0, 50 ) ), unsigned( c.rng.range( 0, 50 ) ) ); int dx = std::abs( int( a.x() ) - int( b.x() ) ), dy = std::abs( int( a.y() ) - int( b.y() ) );
      c.eq( dist::InfinityDistance<unsigned>()( a, b ), unsigned( std::max( dx, dy ) ), "infinity-unsigned" ); c.eq( dist::Euclidean<unsigned>()( a, b ), unsigned( dx * dx + dy * dy ), "planar-euclidean-unsigned" );
    }
  }
}
