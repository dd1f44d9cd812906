#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

namespace c05
{

using namespace vp;

template <class T> aleph::containers::PointCloud<T> toCloud( const Points& P )
{
  aleph::containers::PointCloud<T> C( P.size(), P.empty() ? 1 : P[0].size() );
  for( std::size_t i = 0; i < P.size(); i++ ) { std::vector<T> p( P[i].begin(), P[i].end() ); C.set( i, p.begin(), p.end() ); }
  return C;
}

// Cliques of a graph up to a dimension by exhaustive enumeration
inline std::set<VSet> cliques( const std::vector<unsigned>& V, const std::set<std::pair<unsigned,unsigned>>& E, unsigned dim )
{
  std::set<VSet> all; std::vector<VSet> level; for( auto v : V ) { level.push_back( { v } ); all.insert( { v } ); }
  for( unsigned d = 1; d <= dim && !level.empty(); d++ )
  {
    std::vector<VSet> next;
    for( auto& s : level ) for( auto v : V ) if( v > s.back() ) { bool ok = true; for( auto u : s ) ok = ok && E.count( { u, v } ); if( ok ) { auto t = s; t.push_back( v ); next.push_back( t ); all.insert( t ); } }
    level = next;
  }
  return all;
}

inline void compare( Ctx& c, const std::map<VSet,double>& A, std::size_t size, const std::map<VSet,double>& E, double tol, const std::string& key, const std::string& what )
{
  std::string missing, extra, wrong;
  for( auto& kv : E ) { auto it = A.find( kv.first ); if( it == A.end() ) missing += str( kv.first ); else if( !Ctx::close( it->second, kv.second, tol ) ) wrong += str( kv.first ) + ":" + strx( it->second ) + "!=" + strx( kv.second ) + " "; }
  for( auto& kv : A ) if( !E.count( kv.first ) ) extra += str( kv.first );
  c.expect( missing.empty(), key + "-missing", what + " missing " + missing ); c.expect( extra.empty(), key + "-extra", what + " extra " + extra );
  c.expect( wrong.empty(), key + "-weight", what + " weights " + wrong ); c.eq( size, A.size(), key + "-duplicates", what );
}

// A radius between two distances such that a point has only a few neighbours
inline double sparseRadius( Rng& r, const std::vector<std::vector<double>>& D )
{
  std::vector<double> d; for( std::size_t i = 0; i < D.size(); i++ ) for( std::size_t j = 0; j < i; j++ ) d.push_back( D[i][j] );
  std::sort( d.begin(), d.end() ); std::size_t k = r.below( 4 * D.size() ) + 1;
  while( k + 1 < d.size() && d[ k + 1 ] - d[k] < 2e-4 * d[ k + 1 ] ) ++k;
  if( k + 1 >= d.size() ) throw Skip();
  return double( float( ( d[k] + d[ k + 1 ] ) / 2 ) );
}

template <class NN> void rips( Ctx& c, Metric m, const std::string& name, bool large = false )
{
  using T = typename NN::ElementType; double tol = std::is_same<T,float>::value ? 2e-5 : 1e-12;
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, c.k % 4 == 0 ? 24 : 11 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 6 ) );
  if( large ) { n = static_cast<std::size_t>( c.rng.range( 100, 300 ) ); d = static_cast<std::size_t>( c.rng.range( 2, 4 ) ); }
  auto P = randomPoints( c.rng, n, d, large ? 0 : -1 ); auto D = distanceMatrix( P, m ); double eps = large ? sparseRadius( c.rng, D ) : safeRadius( c.rng, D ); unsigned dim = static_cast<unsigned>( c.rng.range( large ? 1 : 0, n > 11 ? 2 : 4 ) );
  c.desc << name << " eps " << eps << " dim " << dim << " points " << str( P );
  auto cloud = toCloud<T>( P ); NN nn( cloud );

  std::vector<unsigned> V; std::set<std::pair<unsigned,unsigned>> E; for( unsigned i = 0; i < n; i++ ) V.push_back( i );
  for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ ) if( D[i][j] < eps ) E.insert( { i, j } );
  if( !E.empty() ) c.nontrivial( combine( combine( dig( P ), hashDouble( eps ) ), dim ) );

  auto K = aleph::geometry::buildVietorisRipsComplex( nn, static_cast<T>( eps ), dim );
  std::map<VSet,double> W; for( auto& s : cliques( V, E, dim ) ) { double w = 0; for( auto u : s ) for( auto v : s ) w = std::max( w, D[u][v] ); W[s] = w; }
  compare( c, weightsOf( K ), K.size(), W, tol, "rips", name ); expectFiltration( c, K, "rips" );

  // With values at the vertices
  std::vector<T> f( n ); for( auto& x : f ) x = static_cast<T>( c.rng.range( -5, 5 ) );
  auto L = aleph::geometry::buildVietorisRipsComplex( nn, static_cast<T>( eps ), dim, f.begin(), f.end() );
  std::map<VSet,double> F; for( auto& kv : W ) { double w = -INF; for( auto v : kv.first ) w = std::max( w, double( f[v] ) ); F[ kv.first ] = w; }
  compare( c, weightsOf( L ), L.size(), F, 0, "rips-values", name ); expectFiltration( c, L, "rips-values" );

  // Neighbourhood graph
  aleph::geometry::RipsSkeleton<NN> skeleton; auto G = skeleton( nn, static_cast<T>( eps ) );
  std::map<VSet,double> H; for( auto& s : cliques( V, E, 1 ) ) H[s] = s.size() == 2 ? D[ s[0] ][ s[1] ] : 0.0;
  compare( c, weightsOf( G ), G.size(), H, tol, "skeleton", name );
}

} // namespace c05
