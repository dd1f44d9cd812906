// Random persistence diagrams as plain point lists, and reference solutions
// of the matching problems between them.
#ifndef VP_DGM_HH
#define VP_DGM_HH

#include "common.hh"

namespace vp
{

using Pts = std::vector<std::pair<double,double>>;

// mode 0: small integers (ties, duplicates, diagonal points), 1: reals,
// 2: reals with duplicates, 3: superlevel (inverted), 4: negative values and
// large offsets, 5: mixed orientation, 6: many points on few positions
inline Pts randomDiagram( Rng& r, std::size_t n, int mode = -1 )
{
  if( mode < 0 ) mode = r.range( 0, 6 );
  Pts P;
  for( std::size_t i = 0; i < n; i++ )
  {
    double x = 0, y = 0;
    if( mode == 0 ) { x = r.range( 0, 6 ); y = x + r.range( 0, 5 ); }
    else if( mode == 1 || mode == 2 ) { x = r.real( 0, 2 ); y = x + r.real( 0, 3 ); }
    else if( mode == 3 ) { x = r.real( 0, 5 ); y = x - r.real( 0, 3 ); }
    else if( mode == 4 ) { x = r.real( -1000, 1000 ); y = x + std::pow( 10.0, r.real( -3, 3 ) ); }
    else if( mode == 5 ) { x = r.range( -4, 4 ); y = r.range( -4, 4 ); }
    else { x = r.range( 0, 1 ); y = x + r.range( 0, 2 ) * 0.5; }
    if( mode == 2 && !P.empty() && r.chance( 0.4 ) ) P.push_back( r.pick( P ) );
    else P.push_back( { x, y } );
  }
  return P;
}

using Cost = std::vector<std::vector<double>>;

// Minimum cost assignment of a square matrix (shortest augmenting paths).
inline double assignmentCost( const Cost& a )
{
  std::size_t n = a.size(); const double inf = std::numeric_limits<double>::infinity();
  std::vector<double> u( n + 1 ), v( n + 1 ); std::vector<std::size_t> p( n + 1 ), way( n + 1 );
  for( std::size_t i = 1; i <= n; i++ )
  {
    p[0] = i; std::size_t j0 = 0; std::vector<double> minv( n + 1, inf ); std::vector<char> used( n + 1, 0 );
    do
    {
      used[j0] = 1; std::size_t i0 = p[j0], j1 = 0; double delta = inf;
      for( std::size_t j = 1; j <= n; j++ ) if( !used[j] )
      {
        double cur = a[i0-1][j-1] - u[i0] - v[j]; if( cur < minv[j] ) { minv[j] = cur; way[j] = j0; }
        if( minv[j] < delta ) { delta = minv[j]; j1 = j; }
      }
      for( std::size_t j = 0; j <= n; j++ ) if( used[j] ) { u[ p[j] ] += delta; v[j] -= delta; } else minv[j] -= delta;
      j0 = j1;
    }
    while( p[j0] != 0 );
    do { std::size_t j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while( j0 );
  }
  double sum = 0; for( std::size_t j = 1; j <= n; j++ ) sum += a[ p[j]-1 ][ j-1 ];
  return sum;
}

inline bool augment( const Cost& a, double t, std::size_t i, std::vector<char>& seen, std::vector<int>& mate )
{
  for( std::size_t j = 0; j < a.size(); j++ ) if( a[i][j] <= t && !seen[j] )
  {
    seen[j] = 1;
    if( mate[j] < 0 || augment( a, t, std::size_t( mate[j] ), seen, mate ) ) { mate[j] = int( i ); return true; }
  }
  return false;
}

inline bool perfect( const Cost& a, double t )
{
  std::vector<int> mate( a.size(), -1 );
  for( std::size_t i = 0; i < a.size(); i++ ) { std::vector<char> seen( a.size(), 0 ); if( !augment( a, t, i, seen, mate ) ) return false; }
  return true;
}

// Smallest threshold for which a perfect matching exists
inline double bottleneckCost( const Cost& a )
{
  std::vector<double> v; for( auto& row : a ) for( double x : row ) if( std::isfinite( x ) ) v.push_back( x );
  if( v.empty() ) return 0;
  std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() ); std::size_t lo = 0, hi = v.size() - 1;
  while( lo < hi ) { std::size_t m = ( lo + hi ) / 2; if( perfect( a, v[m] ) ) hi = m; else lo = m + 1; }
  return v[lo];
}

// Cost matrix of matching two diagrams where every point may also be matched
// with its own projection to the diagonal; `f` is the ground metric.
template <class F> Cost diagramCost( const Pts& A, const Pts& B, F f, double forbidden )
{
  std::size_t n = A.size(), m = B.size(); Cost a( n + m, std::vector<double>( n + m, 0 ) );
  auto diag = [&] ( std::pair<double,double> p ) { double u = ( p.first + p.second ) / 2; return f( p, std::make_pair( u, u ) ); };
  for( std::size_t i = 0; i < n + m; i++ ) for( std::size_t j = 0; j < n + m; j++ )
  {
    if( i < n && j < m ) a[i][j] = f( A[i], B[j] );
    else if( i < n ) a[i][j] = j - m == i ? diag( A[i] ) : forbidden;
    else if( j < m ) a[i][j] = i - n == j ? diag( B[j] ) : forbidden;
  }
  return a;
}

} // namespace vp

#endif
