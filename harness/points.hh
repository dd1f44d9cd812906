// Point cloud generators and reference metrics. No library code here.
#ifndef VP_POINTS_HH
#define VP_POINTS_HH

#include "oracle.hh"

namespace vp
{

using Points = std::vector<std::vector<double>>;

enum class Metric { Euclidean, Manhattan, Hamming, Infinity };

inline double distance( const std::vector<double>& a, const std::vector<double>& b, Metric m )
{
  long double r = 0;
  for( std::size_t i = 0; i < a.size(); i++ )
  {
    long double d = std::fabs( static_cast<long double>( a[i] ) - b[i] );
    if( m == Metric::Euclidean ) r += d * d; else if( m == Metric::Manhattan ) r += d; else if( m == Metric::Hamming ) r += a[i] != b[i]; else r = std::max( r, d );
  }
  return static_cast<double>( m == Metric::Euclidean ? std::sqrt( r ) : r );
}

// All coordinates are exactly representable as float.
inline Points randomPoints( Rng& r, std::size_t n, std::size_t d, int mode = -1 )
{
  if( mode < 0 ) mode = r.range( 0, 6 );
  Points P( n, std::vector<double>( d ) );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < d; j++ )
  {
    double x = 0;
    switch( mode )
    {
    case 0: x = r.real( -5, 5 ); break;
    case 1: x = r.range( 0, 3 ); break;                              // grid with duplicates
    case 2: x = r.range( 0, 2 ) * 50 + r.real( -1, 1 ); break;       // clusters
    case 3: x = i == 0 ? 1000.0 : r.real( 0, 1 ); break;             // outlier
    case 4: x = j == 0 ? double( i ) * 0.75 : 0.0; break;            // collinear
    case 5: x = r.range( -40, 40 ) * 0.25; break;                    // fine grid
    default: x = r.normal() * 3; break;
    }
    P[i][j] = static_cast<double>( static_cast<float>( x ) );
  }
  if( n > 2 && r.chance( 0.2 ) ) P[n-1] = P[0];
  return P;
}

inline std::vector<std::vector<double>> distanceMatrix( const Points& P, Metric m )
{
  std::vector<std::vector<double>> D( P.size(), std::vector<double>( P.size() ) );
  for( std::size_t i = 0; i < P.size(); i++ ) for( std::size_t j = 0; j < P.size(); j++ ) D[i][j] = distance( P[i], P[j], m );
  return D;
}

// A radius that keeps a relative margin from all pairwise distances
inline double safeRadius( Rng& r, const std::vector<std::vector<double>>& D, double margin = 2e-4 )
{
  std::vector<double> d { 0 }; for( auto& row : D ) d.insert( d.end(), row.begin(), row.end() ); std::sort( d.begin(), d.end() );
  double top = d.back() > 0 ? d.back() * 1.5 : 1.0;
  for( int t = 0; t < 200; t++ )
  {
    double x;
    if( r.chance( 0.5 ) ) x = r.real( 0, top ); else { std::size_t i = r.below( d.size() ); double a = d[i], b = i + 1 < d.size() ? d[i+1] : top; x = a + ( b - a ) * r.real( 0.2, 0.8 ); }
    bool ok = x > 1e-6; for( auto y : d ) if( std::fabs( x - y ) <= margin * std::max( x, y ) ) ok = false;
    if( ok ) return static_cast<double>( static_cast<float>( x ) );
  }
  return static_cast<double>( static_cast<float>( top * 2 ) );
}

} // namespace vp

#endif
