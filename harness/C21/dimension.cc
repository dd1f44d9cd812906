// Local dimensionality estimates against their defining formulas.
#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <Eigen/Dense>

using namespace vp;

namespace
{

using PC = aleph::containers::PointCloud<double>;
using ED = aleph::geometry::distances::Euclidean<double>;
using MD = aleph::geometry::distances::Manhattan<double>;

PC cloudOf( const Points& P )
{
  PC C( P.size(), P.front().size() ); for( std::size_t i = 0; i < P.size(); i++ ) C.set( i, P[i].begin(), P[i].end() ); return C;
}

std::uint64_t digest( const Points& P ) { std::uint64_t h = P.size(); for( auto& p : P ) for( auto x : p ) h = combine( h, hashDouble( x ) ); return h; }

struct Setup
{
  Points P, Q; std::vector<std::size_t> p; std::vector<std::vector<double>> D; bool manhattan, flann; std::string what;
};

Setup setup( Ctx& c, int lo )
{
  Setup s; s.P = randomPoints( c.rng, std::size_t( c.rng.range( lo, c.thorough ? 50 : 22 ) ), std::size_t( c.rng.range( 1, 6 ) ) ); s.manhattan = c.k % 2; s.flann = c.k / 2 % 3 == 2;
  s.D = distanceMatrix( s.P, s.manhattan ? Metric::Manhattan : Metric::Euclidean ); for( auto& r : s.D ) std::sort( r.begin(), r.end() );
  for( std::size_t i = 0; i < s.P.size(); i++ ) s.p.push_back( i ); c.rng.shuffle( s.p ); for( auto i : s.p ) s.Q.push_back( s.P[i] );
  s.what = std::string( s.manhattan ? "manhattan " : "euclidean " ) + ( s.flann ? "flann " : "brute " ) + str( s.P ); return s;
}

// Values whose denominator is dominated by rounding are not comparable (NaN in
// the expectation).
void compare( Ctx& c, const Setup& s, const std::vector<double>& r, const std::vector<double>& rq, const std::vector<double>& e, const std::string& key, const std::string& what )
{
  c.eq( r.size(), e.size(), key + "-size", what ); c.eq( rq.size(), e.size(), key + "-permuted-size", what );
  for( std::size_t i = 0; i < std::min( r.size(), e.size() ); i++ ) if( !std::isnan( e[i] ) ) c.near( r[i], e[i], 1e-7, key, what + " point " + std::to_string( i ) );
  for( std::size_t i = 0; i < std::min( rq.size(), e.size() ); i++ ) if( !std::isnan( e[ s.p[i] ] ) ) c.near( rq[i], e[ s.p[i] ], 1e-7, key + "-permuted", what + " point " + std::to_string( s.p[i] ) );
}

#define CALL( f, C, ... ) ( s.flann ? ( s.manhattan ? aleph::containers::f<MD,PC,aleph::geometry::FLANN<PC,MD>>( C, __VA_ARGS__ ) : aleph::containers::f<ED,PC,aleph::geometry::FLANN<PC,ED>>( C, __VA_ARGS__ ) ) : ( s.manhattan ? aleph::containers::f<MD,PC,aleph::geometry::BruteForce<PC,MD>>( C, __VA_ARGS__ ) : aleph::containers::f<ED,PC,aleph::geometry::BruteForce<PC,ED>>( C, __VA_ARGS__ ) ) )

const double nan_ = std::numeric_limits<double>::quiet_NaN();

long double meanOf( const std::vector<double>& d, std::size_t k ) { long double r = 0; for( std::size_t j = 0; j < k; j++ ) r += d[j]; return r / k; }

SECTION( uniform, 2500, 10000 )
{
  auto s = setup( c, 2 ); unsigned k = unsigned( c.rng.range( 1, int( s.P.size() ) - 1 ) ); std::vector<double> e;
  for( auto& d : s.D ) { auto r1 = meanOf( d, k ), r2 = meanOf( d, k + 1 ); e.push_back( r2 - r1 > 1e-6L * r2 ? double( r1 / ( ( r2 - r1 ) * k ) ) : nan_ ); }
  std::string w = "k " + std::to_string( k ) + " " + s.what; c.desc << w; c.nontrivial( combine( digest( s.P ), k ) ); auto C = cloudOf( s.P ), Q = cloudOf( s.Q );
  compare( c, s, CALL( estimateLocalDimensionalityNearestNeighbours, C, k ), CALL( estimateLocalDimensionalityNearestNeighbours, Q, k ), e, "uniform", w );
}

SECTION( regression, 2500, 10000 )
{
  auto s = setup( c, 3 ); int n = int( s.P.size() ); unsigned a = unsigned( c.rng.range( 1, n ) ), b = unsigned( c.rng.range( 1, n ) ); if( std::max( a, b ) - std::min( a, b ) < 2 ) { a = 1; b = unsigned( n ); } unsigned lo = std::min( a, b ), hi = std::max( a, b ); std::vector<double> e;
  for( auto& d : s.D )
  {
    long double x = 0, y = 0; for( unsigned k = lo; k + 1 < hi; k++ ) { auto r1 = meanOf( d, k ), r2 = meanOf( d, k + 1 ); x += ( r2 - r1 ) * r1 / k; y += ( r2 - r1 ) * ( r2 - r1 ); }
    e.push_back( y > 1e-10L * d.back() * d.back() && y > 0 ? double( x / y ) : nan_ );
  }
  std::string w = "k " + std::to_string( a ) + ".." + std::to_string( b ) + " " + s.what; c.desc << w; c.nontrivial( combine( digest( s.P ), a * 64 + b ) ); auto C = cloudOf( s.P ), Q = cloudOf( s.Q );
  compare( c, s, CALL( estimateLocalDimensionalityNearestNeighbours, C, a, b ), CALL( estimateLocalDimensionalityNearestNeighbours, Q, a, b ), e, "regression", w );
  c.throws( [&]{ CALL( estimateLocalDimensionalityNearestNeighbours, C, 0u, b ); }, "zero-neighbours" );
}

SECTION( likelihood, 2500, 10000 )
{
  auto s = setup( c, 2 ); int n = int( s.P.size() ); unsigned a = unsigned( c.rng.range( 1, n ) ), b = unsigned( c.rng.range( 1, n ) ), lo = std::min( a, b ), hi = std::max( a, b ); std::vector<double> e;
  for( auto& d : s.D )
  {
    long double sum = 0; bool usable = true;
    for( unsigned k = lo - 1; k < hi; k++ )
    {
      if( k < 2 ) continue;
      long double t = 0; for( unsigned j = 0; j < k; j++ ) if( d[j] > 0 && d[k] > 0 ) t += std::log( static_cast<long double>( d[k] ) / d[j] );
      t /= k - 1; if( t > 0 && t < 1e-6 ) usable = false; if( t > 0 ) sum += 1 / t;
    }
    e.push_back( usable ? double( sum / ( hi - lo + 1 ) ) : nan_ );
  }
  std::string w = "k " + std::to_string( a ) + ".." + std::to_string( b ) + " " + s.what; c.desc << w; c.nontrivial( combine( digest( s.P ), a * 64 + b ) ); auto C = cloudOf( s.P ), Q = cloudOf( s.Q );
  // Ties that are broken by rounding only give tiny logarithms
  for( std::size_t i = 0; i < s.D.size(); i++ ) for( std::size_t j = 1; j < s.D[i].size(); j++ ) if( s.D[i][j] > 0 && s.D[i][j] - s.D[i][j-1] < 1e-9 * s.D[i][j] ) e[i] = nan_;
  compare( c, s, CALL( estimateLocalDimensionalityNearestNeighboursMLE, C, a, b ), CALL( estimateLocalDimensionalityNearestNeighboursMLE, Q, a, b ), e, "likelihood", w );
  c.throws( [&]{ CALL( estimateLocalDimensionalityNearestNeighboursMLE, C, 0u, b ); }, "zero-neighbours" );
}

SECTION( components, 1500, 6000 )
{
  // Random affine subspaces with small noise; only the Euclidean distance
  std::size_t d = std::size_t( c.rng.range( 2, 6 ) ), n = std::size_t( c.rng.range( 3, c.thorough ? 40 : 20 ) ), t = std::size_t( c.rng.range( 1, int( d ) ) ); Points B( t, std::vector<double>( d ) ), P; for( auto& b : B ) for( auto& x : b ) x = c.rng.normal();
  double noise = c.rng.chance( 0.5 ) ? 0.0 : 1e-3; for( std::size_t i = 0; i < n; i++ ) { std::vector<double> p( d ); for( auto& b : B ) { double f = c.rng.real( -3, 3 ); for( std::size_t j = 0; j < d; j++ ) p[j] += f * b[j]; } for( auto& x : p ) x += noise * c.rng.normal() + 100; P.push_back( p ); }
  unsigned k = unsigned( c.rng.range( 1, int( n ) + 1 ) ); bool flann = c.k % 2; if( flann ) k = std::min( k, unsigned( n ) - 1 ); auto D = distanceMatrix( P, Metric::Euclidean ); auto C = cloudOf( P );
  auto r = flann ? aleph::containers::estimateLocalDimensionalityPCA<ED,PC,aleph::geometry::FLANN<PC,ED>>( C, k ) : aleph::containers::estimateLocalDimensionalityPCA<ED,PC,aleph::geometry::BruteForce<PC,ED>>( C, k );
  std::string w = "k " + std::to_string( k ) + " rank " + std::to_string( t ) + " " + str( P ); c.desc << w; c.nontrivial( combine( digest( P ), k ) ); c.eq( r.size(), n, "components-size", w );
  for( std::size_t i = 0; i < std::min( n, r.size() ); i++ )
  {
    std::vector<std::size_t> N; for( std::size_t j = 0; j < n; j++ ) N.push_back( j ); std::sort( N.begin(), N.end(), [&]( std::size_t a, std::size_t b ){ return D[i][a] < D[i][b]; } );
    std::size_t m = std::min<std::size_t>( k + 1, n ); if( m < n && D[i][ N[m] ] - D[i][ N[m-1] ] < 1e-9 * D[i][ N[m] ] ) continue;
    Eigen::MatrixXd S = Eigen::MatrixXd::Zero( int( d ), int( d ) ); Eigen::VectorXd mu = Eigen::VectorXd::Zero( int( d ) ); for( std::size_t j = 0; j < m; j++ ) for( std::size_t x = 0; x < d; x++ ) mu( int( x ) ) += P[ N[j] ][x] / double( m );
    for( std::size_t j = 0; j < m; j++ ) { Eigen::VectorXd v = Eigen::VectorXd::Zero( int( d ) ); for( std::size_t x = 0; x < d; x++ ) v( int( x ) ) = P[ N[j] ][x] - mu( int( x ) ); S += v * v.transpose(); }
    Eigen::VectorXd ev = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>( S ).eigenvalues().reverse(); std::vector<double> sv; for( int x = 0; x < int( std::min( m, d ) ); x++ ) sv.push_back( std::sqrt( std::max( 0.0, ev( x ) ) ) );
    unsigned best = 0; double gap = -1, second = -1; for( std::size_t x = 0; x + 1 < sv.size(); x++ ) { double g = sv[x] - sv[x+1]; if( g > gap ) { second = gap; gap = g; best = unsigned( x ) + 1; } else second = std::max( second, g ); }
    if( gap - second < 1e-5 * sv[0] ) continue;
    c.eq( r[i], best, "components", w + " point " + std::to_string( i ) + " singular values " + str( sv ) );
  }
}

SECTION( scarce, 1500, 6000 )
{
  // More neighbours than points: an exception, or as many finite or undefined
  // estimates as points, but no access outside the neighbour lists.
  auto s = setup( c, 1 ); s.flann = false; unsigned n = unsigned( s.P.size() ), k = n + unsigned( c.rng.range( 0, 3 ) ), l = unsigned( c.rng.range( 1, int( k ) ) ); std::string w = "k " + std::to_string( l ) + ".." + std::to_string( k ) + " " + s.what; auto C = cloudOf( s.P ); c.desc << w; c.nontrivial( combine( digest( s.P ), k ) );
  auto tolerant = [&]( const std::string& key, std::function<std::size_t()> f ) { try { c.eq( f(), s.P.size(), key, w ); } catch( const std::exception& ) { c.expect( true, key ); } };
  tolerant( "scarce-uniform", [&]{ return CALL( estimateLocalDimensionalityNearestNeighbours, C, k ).size(); } ); tolerant( "scarce-regression", [&]{ return CALL( estimateLocalDimensionalityNearestNeighbours, C, l, k + 1 ).size(); } ); tolerant( "scarce-likelihood", [&]{ return CALL( estimateLocalDimensionalityNearestNeighboursMLE, C, l, k + 1 ).size(); } );
}

} // namespace
