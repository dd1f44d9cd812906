#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/CechComplex.hh>
#include <aleph/geometry/WitnessComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace vp;
namespace dist = aleph::geometry::distances;
template <class T> using PC = aleph::containers::PointCloud<T>;

namespace
{

template <class T> PC<T> toCloud( const Points& P, std::size_t d )
{
  PC<T> C( P.size(), d );
  for( std::size_t i = 0; i < P.size(); i++ ) { std::vector<T> p( P[i].begin(), P[i].end() ); C.set( i, p.begin(), p.end() ); }
  return C;
}

// Squared radius and centre of the smallest sphere with all points of S on its boundary, in their affine hull
bool circumsphere( const Points& P, const std::vector<std::size_t>& S, std::vector<double>& centre, double& r2 )
{
  std::size_t m = S.size() - 1, d = P[0].size(); std::vector<std::vector<long double>> A( m, std::vector<long double>( m + 1 ) ); auto& o = P[ S[0] ];
  auto dot = [&]( std::size_t i, std::size_t j ) { long double s = 0; for( std::size_t k = 0; k < d; k++ ) s += ( (long double) P[ S[i] ][k] - o[k] ) * ( (long double) P[ S[j] ][k] - o[k] ); return s; };
  for( std::size_t i = 0; i < m; i++ ) { for( std::size_t j = 0; j < m; j++ ) A[i][j] = 2 * dot( i + 1, j + 1 ); A[i][m] = dot( i + 1, i + 1 ); }
  long double scale = 0; for( auto& r : A ) for( auto x : r ) scale = std::max( scale, std::fabs( x ) );
  for( std::size_t i = 0; i < m; i++ )
  {
    std::size_t p = i; for( std::size_t k = i; k < m; k++ ) if( std::fabs( A[k][i] ) > std::fabs( A[p][i] ) ) p = k;
    if( std::fabs( A[p][i] ) < 1e-11L * scale || scale == 0 ) return false;
    std::swap( A[i], A[p] ); for( std::size_t k = 0; k < m; k++ ) if( k != i ) { long double f = A[k][i] / A[i][i]; for( std::size_t j = i; j <= m; j++ ) A[k][j] -= f * A[i][j]; }
  }
  centre.assign( o.begin(), o.end() ); for( std::size_t i = 0; i < m; i++ ) { long double l = A[i][m] / A[i][i]; for( std::size_t k = 0; k < d; k++ ) centre[k] += static_cast<double>( l * ( (long double) P[ S[i+1] ][k] - o[k] ) ); }
  r2 = 0; for( std::size_t k = 0; k < d; k++ ) r2 += ( centre[k] - o[k] ) * ( centre[k] - o[k] ); return true;
}

double miniball( const Points& P, const VSet& s )
{
  double best = INF; std::size_t d = P[0].size();
  for( unsigned mask = 1; mask < ( 1u << s.size() ); mask++ )
  {
    std::vector<std::size_t> S; for( std::size_t i = 0; i < s.size(); i++ ) if( mask >> i & 1 ) S.push_back( s[i] );
    if( S.size() > d + 1 ) continue;
    std::vector<double> c; double r2; if( !circumsphere( P, S, c, r2 ) || r2 >= best ) continue;
    bool in = true; for( auto v : s ) { double x = 0; for( std::size_t k = 0; k < d; k++ ) x += ( P[v][k] - c[k] ) * ( P[v][k] - c[k] ); in = in && x <= r2 * ( 1 + 1e-10 ) + 1e-13; }
    if( in ) best = r2;
  }
  return std::sqrt( best );
}

template <class T> void cech( Ctx& c, double tol )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, 8 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 4 ) ); int mode = c.rng.pick( std::vector<int> { 0, 0, 1, 4, 5, 5, 6 } ); auto P = randomPoints( c.rng, n, d, mode ); auto cloud = toCloud<T>( P, d );
  std::map<VSet,double> R; for( unsigned m = 1; m < ( 1u << n ); m++ ) { VSet s; for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) s.push_back( i ); R[s] = miniball( P, s ); }
  double r = 0; std::vector<double> all; for( auto& kv : R ) all.push_back( kv.second ); std::sort( all.begin(), all.end() );
  bool safe = false; for( int t = 0; t < 100 && !safe; t++ ) { r = c.rng.chance( 0.5 ) ? c.rng.real( 0, all.back() * 1.2 + 0.1 ) : all[ c.rng.below( all.size() ) ] * c.rng.real( 0.9, 1.1 ) + 1e-3; r = double( float( r ) ); safe = true; for( auto x : all ) safe = safe && std::fabs( x - r ) > 1e-3 * std::max( 0.01, r ); }
  c.desc << "r " << r << " points " << str( P ); if( !safe ) throw Skip();
  auto K = aleph::geometry::buildCechComplex( cloud, static_cast<T>( r ) ); auto W = weightsOf( K );
  c.eq( K.size(), W.size(), "cech-duplicates" ); std::size_t expected = 0;
  for( auto& kv : R )
  {
    bool in = kv.first.size() == 1 || kv.second <= r; expected += in; auto it = W.find( kv.first );
    c.expect( ( it != W.end() ) == in, in ? "cech-missing" : "cech-extra", str( kv.first ) + " enclosing radius " + strx( kv.second ) );
    if( in && it != W.end() ) c.near( it->second, 2 * kv.second, tol, "cech-weight", str( kv.first ) );
  }
  c.eq( W.size(), expected, "cech-size" ); expectClosed( c, K, "cech" ); if( expected > n ) c.nontrivial( combine( dig( P ), hashDouble( r ) ) );
  double prev = -INF; for( auto&& s : K ) { c.expect( s.data() >= prev, "cech-order" ); prev = s.data(); }
}

// Many points, few of which are close to each other: all candidates are cliques of the graph of close points
void sparseCech( Ctx& c )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 12, 20 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 3 ) ); auto P = randomPoints( c.rng, n, d, 0 ); auto D = distanceMatrix( P, Metric::Euclidean );
  std::vector<double> all; for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) all.push_back( D[i][j] ); std::sort( all.begin(), all.end() ); std::size_t k = c.rng.below( n );
  double r = double( float( ( all[k] + all[ k + 1 ] ) / 4 ) ); c.desc << "r " << r << " points " << str( P );
  std::map<VSet,double> R; std::vector<VSet> level; for( unsigned i = 0; i < n; i++ ) level.push_back( { i } );
  while( !level.empty() )
  {
    std::vector<VSet> next;
    for( auto& s : level ) { double b = miniball( P, s ); if( std::fabs( b - r ) < 1e-4 * r || s.size() > 4 ) throw Skip(); if( b <= r ) { R[s] = b; for( unsigned v = s.back() + 1; v < n; v++ ) { bool ok = true; for( auto u : s ) ok = ok && D[u][v] <= 2 * r; if( ok ) { next.push_back( s ); next.back().push_back( v ); } } } }
    level = next;
  }
  auto K = aleph::geometry::buildCechComplex( toCloud<double>( P, d ), r ); auto W = weightsOf( K ); c.eq( K.size(), W.size(), "cech-duplicates" ); if( R.size() > n ) c.nontrivial( combine( dig( P ), hashDouble( r ) ) );
  for( auto& kv : R ) { auto it = W.find( kv.first ); c.expect( it != W.end(), "cech-missing", str( kv.first ) ); if( it != W.end() ) c.near( it->second, 2 * kv.second, 1e-6, "cech-weight", str( kv.first ) ); }
  for( auto& kv : W ) c.expect( R.count( kv.first ), "cech-extra", str( kv.first ) );
}

template <class D> void witness( Ctx& c, Metric m )
{
  std::size_t N = static_cast<std::size_t>( c.rng.range( 1, c.k % 20 == 3 ? 250 : 25 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 3 ) ); auto P = randomPoints( c.rng, N, d ); auto cloud = toCloud<double>( P, d ); auto full = distanceMatrix( P, m );
  std::vector<std::size_t> all( N ), L; for( std::size_t i = 0; i < N; i++ ) all[i] = i; c.rng.shuffle( all ); std::size_t n = static_cast<std::size_t>( c.rng.range( 1, std::min<int>( int( N ), 8 ) ) ); L.assign( all.begin(), all.begin() + n );
  unsigned nu = static_cast<unsigned>( c.rng.range( 0, std::min<int>( 3, int( n ) ) ) ), dim = static_cast<unsigned>( c.rng.range( 0, 4 ) ); double R = c.rng.chance( 0.4 ) ? 0.0 : c.rng.real( 0, 4 );
  c.desc << "landmarks " << str( L ) << " nu " << nu << " R " << R << " dim " << dim << " points " << str( P );
  std::map<std::pair<unsigned,unsigned>,double> E; std::vector<double> low( N, 0.0 );
  for( std::size_t k = 0; k < N; k++ ) if( nu ) { std::vector<double> row; for( auto l : L ) row.push_back( full[k][l] ); std::sort( row.begin(), row.end() ); low[k] = row[ nu - 1 ]; }
  for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ )
  {
    double best = INF; for( std::size_t k = 0; k < N; k++ ) { double x = std::max( full[k][ L[i] ], full[k][ L[j] ] ), y = R + low[k]; if( x != y && std::fabs( x - y ) < 1e-9 ) throw Skip(); if( x <= y ) best = std::min( best, x ); }
    if( best < INF ) E[ { i, j } ] = best;
  }
  auto K = aleph::geometry::buildWitnessComplex<D>( cloud, L.begin(), L.end(), dim, nu, R ); auto W = weightsOf( K ); unsigned top = dim ? dim : unsigned( d + 1 );
  c.eq( K.size(), W.size(), "witness-duplicates" ); if( !E.empty() ) c.nontrivial( combine( combine( dig( P ), dig( L ) ), combine( nu * 10 + dim, hashDouble( R ) ) ) );
  std::size_t expected = 0; for( unsigned mask = 1; mask < ( 1u << n ); mask++ )
  {
    VSet s; for( unsigned i = 0; i < n; i++ ) if( mask >> i & 1 ) s.push_back( i ); bool in = s.size() <= top + 1; double w = 0; for( auto a : s ) for( auto b : s ) if( a < b ) { auto it = E.find( { a, b } ); if( it == E.end() ) in = false; else w = std::max( w, it->second ); }
    expected += in; auto it = W.find( s ); c.expect( ( it != W.end() ) == in, in ? "witness-missing" : "witness-extra", str( s ) ); if( in && it != W.end() ) c.near( it->second, w, 1e-12, "witness-weight", str( s ) );
  }
  c.eq( W.size(), expected, "witness-size" ); expectFiltration( c, K, "witness" );
}

} // namespace

SECTION( cech_double, 1200, 12000 ) { cech<double>( c, 1e-6 ); }
SECTION( cech_float, 400, 4000 ) { cech<float>( c, 2e-3 ); }
SECTION( cech_sparse, 60, 600 ) { sparseCech( c ); }
SECTION( witness_euclidean, 1500, 20000 ) { witness<dist::Euclidean<double>>( c, Metric::Euclidean ); }
SECTION( witness_manhattan, 700, 10000 ) { witness<dist::Manhattan<double>>( c, Metric::Manhattan ); }

SECTION( witness_empty, 20, 60 )
{
  Points P = randomPoints( c.rng, 4, 2 ); auto cloud = toCloud<double>( P, 2 ); std::vector<std::size_t> none; auto K = aleph::geometry::buildWitnessComplex<dist::Euclidean<double>>( cloud, none.begin(), none.end() ); c.expect( K.empty(), "witness-empty" ); c.nontrivial( dig( P ) );
}

SECTION( beta_skeleton, 2000, 25000 )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, 16 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 4 ) ); auto P = randomPoints( c.rng, n, d ); auto cloud = toCloud<double>( P, d ); double beta = c.rng.chance( 0.4 ) ? 1 + c.rng.range( 0, 2 ) * 0.5 : c.rng.real( 1, 3 );
  c.desc << "beta " << beta << " points " << str( P );
  auto K = aleph::geometry::buildBetaSkeletonNaive<dist::Euclidean<double>>( cloud, beta ); auto W = weightsOf( K ); c.eq( K.size(), W.size(), "beta-duplicates" ); std::size_t edges = 0;
  for( unsigned i = 0; i < n; i++ )
  {
    c.expect( W.count( { i } ) == 1, "beta-vertex" );
    for( unsigned j = i + 1; j < n; j++ )
    {
      double D = distance( P[i], P[j], Metric::Euclidean ), rad = beta * D / 2; bool in = true, ambiguous = false; std::vector<double> a( d ), b( d ); for( std::size_t k = 0; k < d; k++ ) { a[k] = ( 1 - beta / 2 ) * P[i][k] + beta / 2 * P[j][k]; b[k] = ( 1 - beta / 2 ) * P[j][k] + beta / 2 * P[i][k]; }
      for( unsigned r = 0; r < n; r++ ) if( r != i && r != j ) { double x = std::max( distance( a, P[r], Metric::Euclidean ), distance( b, P[r], Metric::Euclidean ) ); if( std::fabs( x - rad ) < 1e-7 * ( 1 + rad ) ) ambiguous = true; else if( x < rad ) in = false; }
      VSet e { i, j }; bool have = W.count( e ); edges += have;
      if( !in || !ambiguous ) c.expect( have == in, in ? "beta-missing" : "beta-extra", str( e ) );
      if( have ) c.near( W[e], D, 1e-12, "beta-weight", str( e ) );
    }
  }
  c.eq( W.size(), n + edges, "beta-size" ); if( edges ) c.nontrivial( combine( dig( P ), hashDouble( beta ) ) );
}
