// Descriptors of point clouds against their defining formulas.
#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/FractalDimension.hh>
#include <aleph/containers/MeanShift.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace vp;

namespace
{

using PC = aleph::containers::PointCloud<double>;
using ED = aleph::geometry::distances::Euclidean<double>;
using MD = aleph::geometry::distances::Manhattan<double>;

PC cloudOf( const Points& P )
{
  PC C( P.size(), P.front().size() ); for( std::size_t i = 0; i < P.size(); i++ ) C.set( i, P[i].begin(), P[i].end() ); return C;
}

std::uint64_t digest( const Points& P ) { std::uint64_t h = P.size(); for( auto& p : P ) for( auto x : p ) h = combine( h, hashDouble( x ) ); return h; }

Points draw( Ctx& c, int lo, int hi, int mode = -1 )
{
  return randomPoints( c.rng, std::size_t( hi >= 20 && c.rng.chance( 0.01 ) ? c.rng.range( 100, 300 ) : c.rng.range( lo, hi ) ), std::size_t( c.rng.range( 1, 6 ) ), mode );
}

std::vector<std::size_t> permutation( Ctx& c, std::size_t n ) { std::vector<std::size_t> p( n ); for( std::size_t i = 0; i < n; i++ ) p[i] = i; c.rng.shuffle( p ); return p; }

Points permuted( const Points& P, const std::vector<std::size_t>& p ) { Points Q; for( auto i : p ) Q.push_back( P[i] ); return Q; }

template <class V> void compare( Ctx& c, const V& actual, const std::vector<double>& expected, double tol, const std::string& key, const std::string& what )
{
  c.eq( actual.size(), expected.size(), key + "-size", what );
  for( std::size_t i = 0; i < std::min( actual.size(), expected.size() ); i++ ) c.near( double( actual[i] ), expected[i], tol, key, what + " point " + std::to_string( i ) );
}

// Sorted distances of one point to all points, including itself
std::vector<double> sortedRow( const std::vector<std::vector<double>>& D, std::size_t i ) { auto r = D[i]; std::sort( r.begin(), r.end() ); return r; }

template <class F> void both( Ctx& c, const Points& P, const std::vector<double>& expected, double tol, const std::string& key, const std::string& what, F f )
{
  auto C = cloudOf( P ); auto K = C; compare( c, f( C ), expected, tol, key, what ); c.expect( C == K, key + "-input", what );
  auto p = permutation( c, P.size() ); auto r = f( cloudOf( permuted( P, p ) ) ); std::vector<double> e; for( auto i : p ) e.push_back( expected[i] ); compare( c, r, e, tol, key + "-permuted", what );
}

SECTION( eccentricity, 3000, 12000 )
{
  auto P = draw( c, 1, c.thorough ? 60 : 25 ); unsigned order = unsigned( c.rng.range( 0, 6 ) ); bool m = c.k % 2; auto D = distanceMatrix( P, m ? Metric::Manhattan : Metric::Euclidean ); std::vector<double> e;
  for( std::size_t i = 0; i < P.size(); i++ )
  {
    long double s = 0; for( std::size_t j = 0; j < P.size(); j++ ) if( j != i ) { if( order ) s += std::pow( static_cast<long double>( D[i][j] ), static_cast<long double>( order ) ) / P.size(); else s = std::max( s, static_cast<long double>( D[i][j] ) ); }
    e.push_back( double( order ? std::pow( s, 1.0L / order ) : s ) );
  }
  std::string w = "order " + std::to_string( order ) + ( m ? " manhattan " : " euclidean " ) + str( P ); c.desc << w; if( P.size() > 1 ) c.nontrivial( combine( digest( P ), order * 2 + m ) );
  both( c, P, e, 1e-9, "eccentricity", w, [&]( const PC& C ){ return m ? aleph::containers::eccentricities<MD>( C, order ) : aleph::containers::eccentricities<ED>( C, order ); } );
  if( order == 1 ) both( c, P, e, 1e-9, "eccentricity-default", w, [&]( const PC& C ){ return m ? aleph::containers::eccentricities<MD>( C ) : aleph::containers::eccentricities<ED>( C ); } );
  c.expect( aleph::containers::eccentricities<ED>( PC() ).empty(), "empty" );
}

SECTION( gaussian, 3000, 12000 )
{
  auto P = draw( c, 1, c.thorough ? 60 : 25 ); auto D = distanceMatrix( P, Metric::Euclidean ); double h = safeRadius( c.rng, D, 1e-9 ); std::vector<double> e;
  for( std::size_t i = 0; i < P.size(); i++ ) { long double s = 0; for( std::size_t j = 0; j < P.size(); j++ ) if( D[i][j] <= h ) s += std::exp( -static_cast<long double>( D[i][j] ) * D[i][j] / ( 2.0L * h ) ); e.push_back( double( s / P.size() ) ); }
  std::string w = "bandwidth " + std::to_string( h ) + " " + str( P ); c.desc << w; c.nontrivial( combine( digest( P ), hashDouble( h ) ) );
  both( c, P, e, 1e-10, "gaussian", w, [&]( const PC& C ){ return aleph::containers::estimateDensityTruncatedGaussian( C, h ); } );
}

SECTION( measure, 3000, 12000 )
{
  auto P = draw( c, 1, c.thorough ? 60 : 25 ); bool m = c.k % 2, flann = c.k / 2 % 3 == 2; auto D = distanceMatrix( P, m ? Metric::Manhattan : Metric::Euclidean ); unsigned k = unsigned( c.rng.range( 1, int( P.size() ) + ( flann ? 0 : 3 ) ) ); std::vector<double> e;
  for( std::size_t i = 0; i < P.size(); i++ ) { auto r = sortedRow( D, i ); long double s = 0; for( std::size_t j = 0; j < std::min<std::size_t>( k, r.size() ); j++ ) s += r[j]; e.push_back( double( -s / P.size() ) ); }
  std::string w = "k " + std::to_string( k ) + ( m ? " manhattan " : " euclidean " ) + ( flann ? "flann " : "brute " ) + str( P ); c.desc << w; c.nontrivial( combine( digest( P ), k * 4 + m * 2 + flann ) );
  both( c, P, e, 1e-9, "measure", w, [&]( const PC& C )
  {
    if( flann ) return m ? aleph::containers::estimateDensityDistanceToMeasure<MD,PC,aleph::geometry::FLANN<PC,MD>>( C, k ) : aleph::containers::estimateDensityDistanceToMeasure<ED,PC,aleph::geometry::FLANN<PC,ED>>( C, k );
    return m ? aleph::containers::estimateDensityDistanceToMeasure<MD>( C, k ) : aleph::containers::estimateDensityDistanceToMeasure<ED>( C, k );
  } );
}

SECTION( depth, 3000, 12000 )
{
  auto P = draw( c, 1, c.thorough ? 40 : 20 ); bool m = c.k % 2; auto D = distanceMatrix( P, m ? Metric::Manhattan : Metric::Euclidean ); std::size_t n = P.size(); std::vector<double> lo( n ), hi( n );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = i + 1; j < n; j++ ) for( std::size_t k = 0; k < n; k++ ) if( k != i && k != j )
  {
    double x = std::max( D[i][k], D[j][k] ), y = D[i][j], tol = 1e-12 * std::max( x, y ); bool exact = x == y && ( P[i] == P[k] || P[j] == P[k] );
    lo[k] += exact || x < y - tol; hi[k] += x <= y + tol;
  }
  std::string w = ( m ? "manhattan " : "euclidean " ) + str( P ); c.desc << w; if( n > 2 ) c.nontrivial( combine( digest( P ), m ) );
  auto C = cloudOf( P ); auto r = m ? aleph::containers::estimateLensDataDepth<MD>( C ) : aleph::containers::estimateLensDataDepth<ED>( C ); c.eq( r.size(), n, "depth-size", w );
  for( std::size_t i = 0; i < std::min( n, r.size() ); i++ ) c.expect( r[i] >= lo[i] && r[i] <= hi[i], "depth", w + " point " + std::to_string( i ) + " has " + std::to_string( r[i] ) + " expected " + std::to_string( lo[i] ) + ".." + std::to_string( hi[i] ) );
  auto p = permutation( c, n ); auto K = cloudOf( permuted( P, p ) ); auto s = m ? aleph::containers::estimateLensDataDepth<MD>( K ) : aleph::containers::estimateLensDataDepth<ED>( K ); bool ok = s.size() == r.size(); for( std::size_t i = 0; ok && i < n; i++ ) ok = s[i] == r[ p[i] ] || lo[ p[i] ] != hi[ p[i] ]; c.expect( ok, "depth-permuted", w );
}

SECTION( correlation, 3000, 12000 )
{
  auto P = draw( c, 2, c.thorough ? 50 : 25 ); bool m = c.k % 2; auto D = distanceMatrix( P, m ? Metric::Manhattan : Metric::Euclidean ); std::size_t n = P.size(); std::vector<double> d; for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = i + 1; j < n; j++ ) d.push_back( D[i][j] ); std::sort( d.begin(), d.end() );
  std::string w = ( m ? "manhattan " : "euclidean " ) + str( P ); c.desc << w; c.nontrivial( combine( digest( P ), m ) );
  auto C = cloudOf( P ); auto s = m ? aleph::containers::correlationDimensionIntegral( C, MD() ) : aleph::containers::correlationDimensionIntegral( C, ED() );
  c.eq( s.x.size(), s.y.size(), "integral-size", w ); double N = double( d.size() );
  for( std::size_t i = 0; i < std::min( s.x.size(), s.y.size() ); i++ )
  {
    double x = s.x[i], tol = 1e-12 * x, lo = double( std::lower_bound( d.begin(), d.end(), x - tol ) - d.begin() ), hi = double( std::upper_bound( d.begin(), d.end(), x + tol ) - d.begin() ); c.expect( hi > lo && x > 0, "integral-abscissa", w + " x " + std::to_string( x ) );
    double y = s.y[i] * N; c.expect( y > lo && y <= hi + 1e-6 && std::fabs( y - std::round( y ) ) < 1e-6, "integral-ordinate", w + " x " + std::to_string( x ) + " counts " + std::to_string( y ) + " of " + std::to_string( lo ) + ".." + std::to_string( hi ) );
    if( i ) c.expect( s.x[i-1] < x && s.y[i-1] < s.y[i], "integral-monotone", w );
  }
  for( auto x : d ) if( x > 0 ) { bool found = false; for( auto y : s.x ) found = found || std::fabs( x - y ) <= 1e-12 * x; c.expect( found, "integral-missing", w + " distance " + std::to_string( x ) ); }
  if( s.y.size() ) c.near( s.y.back(), 1.0, 1e-12, "integral-last", w );
  auto K = cloudOf( permuted( P, permutation( c, n ) ) ); auto t = m ? aleph::containers::correlationDimensionIntegral( K, MD() ) : aleph::containers::correlationDimensionIntegral( K, ED() ); c.expect( t.x == s.x && t.y == s.y, "integral-permuted", w );
  bool flat = s.x.size() < 2 || s.x.back() / s.x.front() < 1.001; if( flat ) return;
  long double mx = 0, my = 0, xx = 0, xy = 0, k = s.x.size(); for( std::size_t i = 0; i < s.x.size(); i++ ) { mx += std::log( static_cast<long double>( s.x[i] ) ) / k; my += std::log( static_cast<long double>( s.y[i] ) ) / k; }
  for( std::size_t i = 0; i < s.x.size(); i++ ) { auto a = std::log( static_cast<long double>( s.x[i] ) ) - mx, b = std::log( static_cast<long double>( s.y[i] ) ) - my; xx += a * a; xy += a * b; }
  c.near( aleph::containers::correlationDimension( s ), double( xy / xx ), 1e-7, "dimension", w );
  auto bad = s; bad.y.pop_back(); c.throws( [&]{ aleph::containers::correlationDimension( bad ); }, "dimension-inconsistent" );
}

SECTION( sequence, 1500, 6000 )
{
  // The slope of an exact power law is its exponent
  double a = c.rng.real( 0.1, 6 ), b = c.rng.real( 0.01, 10 ); aleph::containers::CorrelationDimensionSequence s; double x = c.rng.real( 0.01, 1 ); int n = c.rng.range( 2, 60 );
  for( int i = 0; i < n; i++ ) { s.x.push_back( x ); s.y.push_back( b * std::pow( x, a ) ); x *= c.rng.real( 1.05, 2 ); }
  c.desc << "exponent " << a << " factor " << b << " from " << n << " values"; c.nontrivial( combine( hashDouble( a ), hashDouble( b ) ) ); c.near( aleph::containers::correlationDimension( s ), a, 1e-7, "power-law", c.desc.str() );
}

SECTION( meanshift, 3000, 12000 )
{
  auto P = draw( c, 1, c.thorough ? 50 : 20, c.rng.pick( std::vector<int>{ 0, 0, 2, 3, 6, 6 } ) ); auto D = distanceMatrix( P, Metric::Euclidean ); std::size_t n = P.size(); unsigned k = unsigned( c.rng.range( 0, int( n ) - 1 ) ), steps = unsigned( c.rng.range( 0, 4 ) ); bool flann = c.k % 3 == 2;
  std::vector<std::vector<std::size_t>> N( n ); bool clear = true;
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < n; j++ ) N[i].push_back( j );
    std::sort( N[i].begin(), N[i].end(), [&]( std::size_t a, std::size_t b ){ return D[i][a] < D[i][b] || ( D[i][a] == D[i][b] && a < b ); } );
    if( k + 1 < n ) clear = clear && D[i][ N[i][k+1] ] - D[i][ N[i][k] ] > 1e-9 * D[i][ N[i][k+1] ];
    N[i].resize( k + 1 ); for( auto j : N[i] ) clear = clear && ( D[i][j] == 0 || D[i][j] > 1e-6 );
  }
  if( !clear ) throw Skip();
  std::vector<double> f; for( std::size_t i = 0; i < n; i++ ) f.push_back( c.rng.real( -10, 10 ) );
  std::vector<double> e = f;
  for( unsigned s = 0; s < steps; s++ ) { std::vector<double> g; for( std::size_t i = 0; i < n; i++ ) { long double v = 0, w = 0; for( auto j : N[i] ) { long double q = D[i][j] > 0 ? 1.0L / ( static_cast<long double>( D[i][j] ) * D[i][j] ) : 1.0L; v += q * e[j]; w += q; } g.push_back( double( v / w ) ); } e = g; }
  std::string w = "k " + std::to_string( k ) + " steps " + std::to_string( steps ) + ( flann ? " flann " : " brute " ) + str( P ) + " values " + str( f ); c.desc << w; if( steps && k ) c.nontrivial( combine( digest( P ), k * 8 + steps ) );
  auto smooth = [&]( const PC& C, const std::vector<double>& v )
  {
    std::vector<double> r; if( flann ) aleph::containers::meanShiftSmoothing<aleph::geometry::FLANN<PC,ED>>( C, v.begin(), v.end(), std::back_inserter( r ), k, steps ); else aleph::containers::meanShiftSmoothing<aleph::geometry::BruteForce<PC,ED>>( C, v.begin(), v.end(), std::back_inserter( r ), k, steps ); return r;
  };
  compare( c, smooth( cloudOf( P ), f ), e, 1e-9, "meanshift", w );
  auto p = permutation( c, n ); std::vector<double> fp, ep; for( auto i : p ) { fp.push_back( f[i] ); ep.push_back( e[i] ); } compare( c, smooth( cloudOf( permuted( P, p ) ), fp ), ep, 1e-9, "meanshift-permuted", w );
  if( steps == 1 ) { std::vector<double> r; aleph::containers::meanShiftSmoothing<aleph::geometry::BruteForce<PC,ED>>( cloudOf( P ), f.begin(), f.end(), std::back_inserter( r ), k ); compare( c, r, e, 1e-9, "meanshift-default", w ); }
}

} // namespace
