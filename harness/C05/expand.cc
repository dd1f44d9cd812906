#include "c05.hh"

using namespace c05;
using namespace aleph::topology;

namespace
{

template <class S> void expand( Ctx& c )
{
  using SC = SimplicialComplex<S>; using T = typename S::DataType; using VT = typename S::VertexType;
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, c.k % 5 == 0 ? 16 : 9 ) ); auto V = vertexIds( c.rng, n, c.rng.range( 0, 2 ), 30000 );
  double p = c.rng.pick( std::vector<double> { 0, 0.2, 0.5, 0.8, 1.0 } ); if( n > 11 ) p = std::min( p, 0.5 );
  int mode = c.rng.range( 0, 3 );  // weights: positive, ties, negative, mixed
  auto weight = [&] { return mode == 0 ? double( float( c.rng.real( 0.5, 9 ) ) ) : mode == 1 ? double( c.rng.range( 1, 3 ) ) : mode == 2 ? double( -c.rng.range( 1, 9 ) ) : double( c.rng.range( -4, 4 ) ); };
  auto num = []( double x ) { return std::is_floating_point<T>::value ? x : std::floor( x ); };
  std::map<VSet,double> G; std::set<std::pair<unsigned,unsigned>> E;
  for( auto v : V ) G[ { v } ] = mode == 0 ? 0.0 : double( c.rng.range( -5, 1 ) );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = i + 1; j < n; j++ ) if( c.rng.chance( p ) ) { E.insert( { V[i], V[j] } ); G[ { V[i], V[j] } ] = num( weight() ); }
  unsigned dim = static_cast<unsigned>( c.rng.range( 0, n > 9 ? 3 : 6 ) );
  c.desc << "dim " << dim << " graph " << text( G ); if( !E.empty() ) c.nontrivial( combine( dig( std::vector<std::pair<VSet,double>>( G.begin(), G.end() ) ), dim ) );

  std::vector<S> v; for( auto& kv : G ) v.push_back( toSimplex<S>( kv.first, kv.second ) ); c.rng.shuffle( v );
  SC K( v.begin(), v.end() );
  auto C = cliques( V, E, dim ); std::map<VSet,double> byEdge, byVertex, byMin; std::vector<T> f( n ); std::map<unsigned,double> fv;
  for( std::size_t i = 0; i < n; i++ ) { f[i] = static_cast<T>( c.rng.range( -6, 6 ) ); fv[ V[i] ] = double( f[i] ); }
  for( auto& s : C )
  {
    double w = -INF, x = -INF, y = INF; for( auto a : s ) { x = std::max( x, fv[a] ); y = std::min( y, fv[a] ); for( auto b : s ) if( a < b ) w = std::max( w, G.at( { a, b } ) ); }
    byEdge[s] = s.size() == 1 ? G.at( s ) : w; byVertex[s] = x; byMin[s] = y;
  }

  aleph::geometry::RipsExpander<SC> up; auto A = up( K, dim );
  { auto a = weightsOf( A ); std::set<VSet> have; for( auto& kv : a ) have.insert( kv.first ); c.expect( have == C && A.size() == C.size(), "bottom-up-cliques", "have " + std::to_string( A.size() ) + " expected " + std::to_string( C.size() ) ); bool low = true; for( auto& kv : a ) if( kv.first.size() <= 2 ) low = low && kv.second == G.at( kv.first ); c.expect( low, "bottom-up-graph-weights" ); }
  auto AW = up.assignMaximumWeight( A ); compare( c, weightsOf( AW ), AW.size(), byEdge, 0, "bottom-up", "" );
  auto AD = up.assignMaximumData( A, f.begin(), f.end() ); compare( c, weightsOf( AD ), AD.size(), byVertex, 0, "bottom-up-data", "" );
  auto AM = up.assignData( A, f.begin(), f.end(), std::numeric_limits<T>::max(), []( const T& a, const T& b ) { return std::min( a, b ); } ); compare( c, weightsOf( AM ), AM.size(), byMin, 0, "bottom-up-minimum", "" );

  aleph::geometry::RipsExpanderTopDown<SC> down; auto B = down( K, dim );
  { std::set<VSet> have; for( auto&& s : B ) have.insert( vset( s ) ); c.expect( have == C && B.size() == C.size(), "top-down-cliques", "have " + std::to_string( B.size() ) + " expected " + std::to_string( C.size() ) ); }
  auto BW = down.assignMaximumWeight( B, K ); { auto e = byEdge; auto a = weightsOf( BW ); for( auto& kv : e ) if( kv.first.size() == 1 && a.count( kv.first ) ) kv.second = a[ kv.first ]; compare( c, weightsOf( BW ), BW.size(), e, 0, "top-down", "" ); }
  unsigned lo = static_cast<unsigned>( c.rng.range( 0, int( dim ) ) ); auto R = down( K, dim, lo );
  { std::set<VSet> have, want; for( auto&& s : R ) have.insert( vset( s ) ); for( auto& s : C ) if( s.size() > lo ) want.insert( s ); c.expect( have == want && R.size() == want.size(), "top-down-range" ); }
  { auto RW = down.assignMaximumWeight( R, K ); bool ok = true; for( auto&& s : RW ) if( s.size() > 1 ) ok = ok && double( s.data() ) == byEdge.at( vset( s ) ); c.expect( ok, "top-down-range-weights" ); }
  (void) sizeof( VT );
}

} // namespace

SECTION( expansion_double, 2000, 25000 ) { expand<Simplex<double,unsigned>>( c ); }
SECTION( expansion_float, 1000, 12000 ) { expand<Simplex<float,unsigned short>>( c ); }
SECTION( expansion_int, 1000, 12000 ) { expand<Simplex<int,int>>( c ); }
