// Summation, moments, medians and density estimates against long double references.
#include "bridge.hh"

#include <aleph/math/KahanSummation.hh>
#include <aleph/math/KernelDensityEstimator.hh>
#include <aleph/math/Quantiles.hh>
#include <aleph/math/Statistics.hh>

#include <deque>
#include <forward_list>
#include <list>

using namespace vp;

namespace
{

template <class T> std::vector<T> sequence( Ctx& c, std::size_t n, int mode )
{
  std::vector<T> v; double scale = std::pow( 10.0, c.rng.range( -6, 6 ) ), offset = std::pow( 10.0, c.rng.range( 3, 8 ) ) * ( c.rng.chance( 0.5 ) ? 1 : -1 );
  for( std::size_t i = 0; i < n; i++ )
  {
    double x = 0;
    switch( mode )
    {
    case 0: x = c.rng.real( -1, 1 ) * scale; break;
    case 1: x = c.rng.range( -5, 5 ); break;                                  // ties
    case 2: x = offset + c.rng.real( -1, 1 ); break;                          // large offset
    case 3: x = c.rng.normal() * std::pow( 10.0, c.rng.range( -8, 8 ) ); break;   // mixed magnitudes
    case 4: x = i == 0 ? 1.0 : double( std::numeric_limits<T>::epsilon() ) / 2; break;   // everything but the first below one ulp
    case 5: x = i % 2 && i ? -double( v[i-1] ) : c.rng.real( -1, 1 ) * 1e6; if( i + 1 == n ) x = 1e-3; break; // cancellation
    default: x = offset; break;                                               // constant
    }
    v.push_back( std::is_unsigned<T>::value ? T( std::fabs( x ) ) : T( x ) );
  }
  return v;
}

template <class T> std::uint64_t digest( const std::vector<T>& v ) { std::uint64_t h = v.size(); for( auto x : v ) h = combine( h, hashDouble( double( x ) ) ); return h; }

template <class T> std::string shown( const std::vector<T>& v ) { std::vector<T> w( v.begin(), v.begin() + std::min<std::ptrdiff_t>( 30, std::ptrdiff_t( v.size() ) ) ); return std::to_string( v.size() ) + " values " + str( w ); }

template <class T> void sums( Ctx& c )
{
  int mode = c.rng.range( 0, 6 ); auto v = sequence<T>( c, c.rng.chance( 0.2 ) ? std::size_t( c.rng.range( 0, 5 ) ) : std::size_t( c.rng.range( 6, c.thorough ? 20000 : 3000 ) ), mode ); T init = c.rng.chance( 0.5 ) ? T() : T( c.rng.real( -10, 10 ) );
  long double s = init, a = std::fabs( init ); for( auto x : v ) { s += x; a += std::fabs( x ); }
  std::string w = "mode " + std::to_string( mode ) + " " + shown( v ); c.desc << w; if( v.size() > 1 ) c.nontrivial( digest( v ) );
  long double eps = std::numeric_limits<T>::epsilon(), tol = 4 * eps * a + 4 * eps * eps * a * ( 1 + v.size() ); auto copy = v;
  auto check = [&]( T r, const std::string& key ){ c.expectf( std::fabs( r - s ) <= tol, key, [&]( std::ostream& o ){ o << w << " actual " << r << " expected " << s << " tolerance " << tol; } ); };
  check( aleph::math::accumulate_kahan( v.begin(), v.end(), init ), "kahan" ); check( aleph::math::accumulate_kahan_sorted( v.begin(), v.end(), init ), "kahan-sorted" );
  std::list<T> l( v.begin(), v.end() ); check( aleph::math::accumulate_kahan( l.begin(), l.end(), init ), "kahan-list" ); check( aleph::math::accumulate_kahan_sorted( l.begin(), l.end(), init ), "kahan-sorted-list" );
  aleph::math::KahanSummation<T> k = init, m = init; for( auto x : v ) { k += x; m -= -x; } check( k, "kahan-add" ); check( m, "kahan-subtract" ); c.expect( v == copy, "kahan-input", w );
}

template <class T> void scaled( Ctx& c )
{
  // Sums that are scaled between additions; the absolute sum is scaled along.
  aleph::math::KahanSummation<T> k; long double s = 0, a = 0, eps = std::numeric_limits<T>::epsilon(); int scalings = 0, steps = c.rng.range( 2, 60 ); std::string log; std::uint64_t h = 0;
  if( c.rng.chance( 0.5 ) ) { T x = T( c.rng.real( -3, 3 ) ); k = x; s = x; a = std::fabs( x ); }
  for( int i = 0; i < steps; i++ )
  {
    int op = c.rng.range( 0, 5 ); T x = T( c.rng.normal() * std::pow( 10.0, c.rng.range( -4, 4 ) ) ); if( x == 0 ) x = 1; std::ostringstream o; o.precision( 17 );
    if( op <= 1 ) { k += x; s += x; a += std::fabs( x ); o << " +" << x; }
    else if( op == 2 ) { k -= x; s -= x; a += std::fabs( x ); o << " -" << x; }
    else if( a > 1e-15 && a < 1e15 )
    {
      T f = T( std::pow( 2.0, c.rng.range( -30, 30 ) ) * c.rng.real( 0.5, 1 ) ); if( c.rng.chance( 0.3 ) ) f = -f;
      if( op <= 4 ) { k *= f; s *= f; a *= std::fabs( f ); o << " *" << f; } else { k /= f; s /= f; a /= std::fabs( f ); o << " /" << f; }
      scalings++;
    }
    log += o.str(); h = combine( h, hashDouble( double( x ) ) ); long double tol = ( 6 + 3 * scalings ) * eps * a;
    c.expectf( std::fabs( T( k ) - s ) <= tol, "scaled", [&]( std::ostream& p ){ p << log << " actual " << T( k ) << " expected " << s << " tolerance " << tol; } );
  }
  c.desc << log; c.nontrivial( h );
}

template <class T, class V> void moments( Ctx& c, const V& v, const std::vector<T>& raw, const std::string& what )
{
  long double n = raw.size(), mean = 0, big = 0, m2 = 0, m3 = 0, m4 = 0, eps = std::numeric_limits<double>::epsilon(); for( auto x : raw ) { mean += x; big = std::max( big, std::fabs( static_cast<long double>( x ) ) ); } mean /= n;
  for( auto x : raw ) { long double d = x - mean; m2 += d * d; m3 += d * d * d; m4 += d * d * d * d; }
  long double noise = 4 * eps * n * big, sd = std::sqrt( m2 / n );
  auto within = [&]( double r, long double e, long double tol, const std::string& key ){ c.expectf( std::fabs( r - e ) <= tol, key, [&]( std::ostream& o ){ o << what << " actual " << r << " expected " << e << " tolerance " << tol; } ); };
  within( aleph::math::sampleMean( v.begin(), v.end() ), mean, noise, "mean" );
  if( raw.size() == 1 ) { c.expect( std::isnan( aleph::math::sampleVariance( v.begin(), v.end() ) ), "variance-single" ); c.expect( std::isnan( aleph::math::sampleStandardDeviation( v.begin(), v.end() ) ), "deviation-single" ); return; }
  long double var = m2 / ( n - 1 ), vtol = 8 * noise * sd + 8 * noise * noise + 8 * eps * n * var; double lv = aleph::math::sampleVariance( v.begin(), v.end() ), ls = aleph::math::sampleStandardDeviation( v.begin(), v.end() );
  within( lv, var, vtol, "variance" ); within( static_cast<double>( static_cast<long double>( ls ) * ls ), lv, 8 * eps * std::max( var, static_cast<long double>( lv ) ), "deviation" ); within( aleph::math::sampleCovariance( v.begin(), v.end(), v.begin(), v.end() ), var, vtol, "self-covariance" );
  if( sd > 0 && noise / sd < 1e-7 ) { long double r = noise / sd + n * eps; long double sk = m3 / n / ( sd * sd * sd ), ku = m4 / n / ( sd * sd * sd * sd ) - 3; within( aleph::math::sampleSkewness( v.begin(), v.end() ), sk, 100 * r * ( 1 + std::fabs( sk ) ) * std::sqrt( n ), "skewness" ); within( aleph::math::sampleKurtosis( v.begin(), v.end() ), ku, 100 * r * ( 1 + std::fabs( ku ) ) * std::sqrt( n ), "kurtosis" ); }
}

template <class T> void statistics( Ctx& c )
{
  int mode = std::is_integral<T>::value ? 1 : c.rng.range( 0, 6 ); if( mode == 4 ) mode = 0; auto v = sequence<T>( c, std::size_t( c.rng.chance( 0.3 ) ? c.rng.range( 1, 4 ) : c.rng.range( 5, 200 ) ), mode ); if( std::is_integral<T>::value ) for( auto& x : v ) x = T( c.rng.range( std::is_unsigned<T>::value ? 0 : -100, 100 ) );
  auto copy = v; std::string w = "mode " + std::to_string( mode ) + " " + shown( v ); c.desc << w; if( v.size() > 1 ) c.nontrivial( digest( v ) );
  moments<T>( c, v, v, w ); moments<T>( c, std::list<T>( v.begin(), v.end() ), v, "list " + w ); c.expect( v == copy, "statistics-input", w );
  std::vector<T> e; c.expect( std::isnan( aleph::math::sampleMean( e.begin(), e.end() ) ) && std::isnan( aleph::math::sampleVariance( e.begin(), e.end() ) ) && std::isnan( aleph::math::sampleSkewness( e.begin(), e.end() ) ) && std::isnan( aleph::math::sampleKurtosis( e.begin(), e.end() ) ), "empty" );
}

SECTION( sums, 12000, 80000 ) { if( c.k % 2 ) sums<float>( c ); else sums<double>( c ); }
SECTION( scaled, 12000, 120000 ) { if( c.k % 2 ) scaled<float>( c ); else scaled<double>( c ); }
SECTION( statistics, 16000, 160000 ) { switch( c.k % 5 ) { case 0: statistics<int>( c ); break; case 1: statistics<unsigned>( c ); break; case 2: statistics<float>( c ); break; default: statistics<double>( c ); } }

SECTION( covariance, 8000, 80000 )
{
  std::size_t n = std::size_t( c.rng.range( 2, 100 ) ); int mode = c.rng.range( 0, 3 ); auto x = sequence<double>( c, n, mode ), y = sequence<double>( c, n, c.rng.range( 0, 2 ) ); if( c.rng.chance( 0.5 ) ) { double f = c.rng.real( -2, 2 ); for( std::size_t i = 0; i < n; i++ ) y[i] = f * x[i] + c.rng.real( -0.1, 0.1 ); }
  long double mx = 0, my = 0, s = 0, bx = 0, by = 0, ax = 0, ay = 0, eps = std::numeric_limits<double>::epsilon(); for( std::size_t i = 0; i < n; i++ ) { mx += x[i]; my += y[i]; bx = std::max( bx, std::fabs( static_cast<long double>( x[i] ) ) ); by = std::max( by, std::fabs( static_cast<long double>( y[i] ) ) ); } mx /= n; my /= n;
  for( std::size_t i = 0; i < n; i++ ) { s += ( x[i] - mx ) * ( y[i] - my ); ax += std::fabs( x[i] - mx ); ay += std::fabs( y[i] - my ); } long double e = s / ( n - 1 ), tol = 16 * eps * n * ( bx * ay + by * ax + ax * ay ) + 16 * eps * eps * n * n * bx * by;
  c.desc << "x " << shown( x ) << " y " << shown( y ); c.nontrivial( combine( digest( x ), digest( y ) ) );
  double r = aleph::math::sampleCovariance( x.begin(), x.end(), y.begin(), y.end() ); c.expectf( std::fabs( r - e ) <= tol, "covariance", [&]( std::ostream& o ){ o << c.desc.str() << " actual " << r << " expected " << e << " tolerance " << tol; } );
  c.near( aleph::math::sampleCovariance( y.begin(), y.end(), x.begin(), x.end() ), r, 1e-12, "covariance-symmetric" );
  if( n > 2 ) c.throws( [&]{ aleph::math::sampleCovariance( x.begin(), x.end(), y.begin(), y.end() - 1 ); }, "covariance-lengths" );
  c.expect( std::isnan( aleph::math::sampleCovariance( x.begin(), x.begin() + 1, y.begin(), y.begin() + 1 ) ) && std::isnan( aleph::math::sampleCovariance( x.begin(), x.begin(), y.begin(), y.begin() ) ), "covariance-undefined" );
}

template <class T> void median( Ctx& c )
{
  std::size_t n = std::size_t( c.rng.range( 1, c.rng.chance( 0.3 ) ? 4 : 60 ) ); std::vector<T> v; for( std::size_t i = 0; i < n; i++ ) v.push_back( std::is_integral<T>::value ? T( c.rng.range( std::is_unsigned<T>::value ? 0 : -9, 9 ) ) : c.rng.chance( 0.5 ) ? T( c.rng.range( -3, 3 ) ) : T( c.rng.real( -1e3, 1e3 ) ) );
  auto s = v; std::sort( s.begin(), s.end() ); T e = n % 2 ? s[n/2] : T( T( s[n/2-1] + s[n/2] ) / T( 2 ) ); auto copy = v; c.desc << shown( v ); if( n > 1 ) c.nontrivial( digest( v ) );
  c.near( double( aleph::math::median( v.begin(), v.end() ) ), double( e ), std::is_same<T,float>::value ? 1e-6 : 1e-14, "median", shown( v ) ); c.expect( v == copy, "median-input", shown( v ) ); std::list<T> l( v.begin(), v.end() ); c.near( double( aleph::math::median( l.begin(), l.end() ) ), double( e ), 1e-6, "median-list", shown( v ) ); const std::deque<T> d( v.begin(), v.end() ); c.near( double( aleph::math::median( d.begin(), d.end() ) ), double( e ), 1e-6, "median-deque", shown( v ) );
}

SECTION( median, 12000, 120000 ) { switch( c.k % 4 ) { case 0: median<int>( c ); break; case 1: median<unsigned>( c ); break; case 2: median<float>( c ); break; default: median<double>( c ); } }

using Vec = std::vector<double>;
struct Difference { Vec operator()( const Vec& a, const Vec& b ) const { Vec r; for( std::size_t i = 0; i < a.size(); i++ ) r.push_back( a[i] - b[i] ); return r; } };

SECTION( density, 12000, 120000 )
{
  std::size_t n = std::size_t( c.rng.range( 1, 40 ) ), d = std::size_t( c.rng.range( 1, 4 ) ); double h = std::pow( 10.0, c.rng.real( -1, 1 ) ), sigma = c.rng.real( 0.2, 3 ); bool gauss = c.rng.chance( 0.5 ), unit = c.rng.chance( 0.3 ); if( unit ) sigma = 1;
  std::vector<Vec> P( n, Vec( d ) ); for( auto& p : P ) for( auto& x : p ) x = c.rng.real( -2, 2 ); Vec x( d ); for( auto& y : x ) y = c.rng.real( -2, 2 ); if( c.rng.chance( 0.3 ) ) x = P[0];
  long double e = 0; bool edge = false;
  for( auto& p : P ) { long double t = 0; for( std::size_t i = 0; i < d; i++ ) t += ( static_cast<long double>( p[i] ) - x[i] ) * ( p[i] - x[i] ); t = std::sqrt( t ) / h; edge = edge || std::fabs( t - 1 ) < 1e-12; e += gauss ? std::exp( -t * t / ( 2 * sigma * sigma ) ) / ( std::sqrt( 2 * std::acos( -1.0L ) ) * sigma ) : t <= 1 ? 0.75L * ( 1 - t * t ) : 0.0L; }
  e /= n * std::pow( static_cast<long double>( h ), static_cast<long double>( d ) );
  c.desc << ( gauss ? "gaussian " : "epanechnikov " ) << "bandwidth " << h << " sigma " << sigma << " points " << str( P ) << " at " << str( x ); std::uint64_t g = hashDouble( h ); for( auto& p : P ) for( auto y : p ) g = combine( g, hashDouble( y ) ); c.nontrivial( g );
  aleph::math::KernelDensityEstimator K( h, unsigned( d ) ); namespace ke = aleph::math::kernels; namespace no = aleph::math::norms; auto copy = P;
  double r = gauss ? K( P.begin(), P.end(), x, unit ? ke::Gaussian() : ke::Gaussian( sigma ), no::Euclidean(), Difference() ) : K( P.begin(), P.end(), x, ke::Epanechnikov(), no::Euclidean(), Difference() ); c.near( r, double( e ), 1e-10, "density", c.desc.str() ); c.expect( P == copy, "density-input" );
  if( d == 1 )
  {
    std::vector<double> v; for( auto& p : P ) v.push_back( p[0] );
    c.near( gauss ? K( v.begin(), v.end(), x[0], ke::Gaussian( sigma ) ) : K( v.begin(), v.end(), x[0], ke::Epanechnikov() ), double( e ), 1e-10, "density-line", c.desc.str() );
  }
}

} // namespace
