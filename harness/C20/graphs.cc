// Graph algorithms on complexes against brute force.
#include "graphs.hh"

#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/FloydWarshall.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/MaximalCliques.hh>
#include <aleph/topology/filtrations/Degree.hh>

namespace
{

template <class S> void cliques( Ctx& c, unsigned maxId )
{
  using V = typename S::VertexType;
  auto A = randomGraph( c, c.thorough ? 13 : 11, maxId, true ); cast<typename S::DataType>( A ); auto k = toComplex<S>( A ); auto S_ = sets( A );
  auto v = verticesOf( A ); c.desc << A.text( 12 ); if( A.dimension() > 0 ) c.nontrivial( A.digest() );
  std::vector<unsigned> adj( v.size(), 0 );
  for( std::size_t i = 0; i < v.size(); i++ ) for( std::size_t j = 0; j < v.size(); j++ ) if( i != j && S_.count( VSet{ std::min( v[i], v[j] ), std::max( v[i], v[j] ) } ) ) adj[i] |= 1u << j;
  std::multiset<std::set<V>> expected; unsigned full = ( 1u << v.size() ) - 1;
  for( unsigned m = 1; m <= full; m++ )
  {
    bool ok = true; unsigned common = full; for( std::size_t i = 0; i < v.size() && ok; i++ ) if( m >> i & 1 ) { ok = ( m & ~( 1u << i ) & ~adj[i] ) == 0; common &= adj[i]; }
    if( ok && common == 0 ) { std::set<V> q; for( std::size_t i = 0; i < v.size(); i++ ) if( m >> i & 1 ) q.insert( V( v[i] ) ); expected.insert( q ); }
  }
  auto check = [&]( const std::vector<std::set<V>>& q, const std::string& key ) { c.expectf( std::multiset<std::set<V>>( q.begin(), q.end() ) == expected, key, [&]( std::ostream& o ) { o << q.size() << " cliques, expected " << expected.size() << ": " << A.text(); } ); };
  check( maximalCliquesKoch( k ), "koch" ); check( maximalCliquesBronKerbosch( k ), "bron-kerbosch" );
}

// Sparse graphs with many vertices; cliques are found by extending sets in order of vertices
template <class S> void manyCliques( Ctx& c, unsigned maxId )
{
  using V = typename S::VertexType;
  auto n = static_cast<std::size_t>( c.rng.range( 20, 60 ) ); auto ids = vertexIds( c.rng, n, int( c.rng.below( 3 ) ), std::max( maxId, 200u ) ); std::sort( ids.begin(), ids.end() );
  std::vector<std::uint64_t> adj( n, 0 ); std::set<VSet> E; for( auto v : ids ) E.insert( VSet{ v } );
  auto add = [&]( std::size_t i, std::size_t j ) { if( i == j ) return; adj[i] |= std::uint64_t( 1 ) << j; adj[j] |= std::uint64_t( 1 ) << i; E.insert( VSet{ ids[ std::min( i, j ) ], ids[ std::max( i, j ) ] } ); };
  if( c.rng.chance( 0.2 ) ) { auto centre = c.rng.below( n ); for( std::size_t i = 0; i < n; i++ ) add( centre, i ); }
  if( c.rng.chance( 0.3 ) ) { auto m = 5 + c.rng.below( 4 ), at = c.rng.below( n ); for( std::size_t i = 0; i < m; i++ ) for( std::size_t j = 0; j < i; j++ ) add( ( at + 2 * i ) % n, ( at + 2 * j ) % n ); }
  double p = c.rng.pick( std::vector<double>{ 0.02, 0.1, 0.25 } ); for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) if( c.rng.chance( p ) ) add( i, j );
  std::set<std::set<V>> expected;
  std::function<void( std::uint64_t, std::uint64_t, std::size_t )> grow = [&]( std::uint64_t q, std::uint64_t common, std::size_t from )
  {
    if( !common ) { std::set<V> s; for( std::size_t i = 0; i < n; i++ ) if( q >> i & 1 ) s.insert( V( ids[i] ) ); expected.insert( s ); }
    for( std::size_t i = from; i < n; i++ ) if( common >> i & 1 ) grow( q | std::uint64_t( 1 ) << i, common & adj[i], i + 1 );
  };
  for( std::size_t i = 0; i < n; i++ ) grow( std::uint64_t( 1 ) << i, adj[i], i + 1 );
  auto A = orderComplex( c.rng, randomWeights( c.rng, E, -1 ), true ); cast<typename S::DataType>( A ); auto k = toComplex<S>( A ); c.desc << A.text( 12 ); c.nontrivial( A.digest() );
  auto check = [&]( const std::vector<std::set<V>>& q, const std::string& key ) { c.expectf( q.size() == expected.size() && std::set<std::set<V>>( q.begin(), q.end() ) == expected, key, [&]( std::ostream& o ) { o << q.size() << " cliques, expected " << expected.size() << ": " << A.text(); } ); };
  check( maximalCliquesKoch( k ), "koch" ); check( maximalCliquesBronKerbosch( k ), "bron-kerbosch" );
}

template <class S> void cliqueGraph( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType;
  auto A = randomGraph( c, 9, maxId, true ); cast<T>( A ); auto k = toComplex<S>( A ); c.desc << A.text( 12 ); c.nontrivial( A.digest() );
  for( unsigned d = 0; d <= 4; d++ )
  {
    auto mode = c.rng.below( 3 );
    auto f = [&]( double a, double b ) { return mode == 0 ? std::max( a, b ) : mode == 1 ? std::min( a, b ) : double( T( a ) + T( b ) ); };
    auto l = mode == 0 && c.rng.chance( 0.5 ) ? getCliqueGraph( k, d ) : getCliqueGraph( k, d, [&]( T a, T b ) { return T( f( a, b ) ); } );
    std::map<VSet,double> E;
    for( std::size_t i = 0; i < A.size(); i++ ) if( A.s[i].size() == d + 1 )
    {
      E[ VSet{ unsigned( i ) } ] = A.w[i];
      for( std::size_t j = 0; j < i; j++ ) if( A.s[j].size() == d + 1 ) { VSet m; std::set_intersection( A.s[i].begin(), A.s[i].end(), A.s[j].begin(), A.s[j].end(), std::back_inserter( m ) ); if( d > 0 && m.size() == d ) E[ VSet{ unsigned( j ), unsigned( i ) } ] = f( A.w[j], A.w[i] ); }
    }
    auto W = weightsOf( l ); c.expect( W == E && l.size() == E.size(), "clique-graph", "k=" + std::to_string( d ) + " " + text( W ) + " expected " + text( E ) + " for " + A.text() );
  }
}

template <class S> void paths( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType; using V = typename S::VertexType;
  auto A = c.rng.chance( 0.03 ) ? randomGraph( c, 40, std::max( maxId, 200u ), true ) : randomGraph( c, 14, maxId, true );
  for( std::size_t i = 0; i < A.size(); i++ ) { double x = c.rng.chance( 0.4 ) ? c.rng.range( 0, 5 ) : c.rng.real( 0, 10 ); A.w[i] = double( T( x ) ); }
  if( c.rng.chance( 0.3 ) ) { std::vector<std::size_t> p( A.size() ); for( std::size_t i = 0; i < p.size(); i++ ) p[i] = i; c.rng.shuffle( p ); Cx B; for( auto i : p ) { B.s.push_back( A.s[i] ); B.w.push_back( A.w[i] ); } A = B; }
  auto k = toComplex<S>( A ); c.desc << A.text( 12 ); if( A.dimension() > 0 ) c.nontrivial( A.digest() );
  bool given = c.rng.chance( 0.7 ); double w = given ? double( T( c.rng.range( 0, 4 ) ) ) : 0.0;
  std::vector<unsigned> order; for( auto& s : A.s ) if( s.size() == 1 ) order.push_back( s[0] );
  std::size_t n = order.size(); std::map<unsigned,std::size_t> at; for( std::size_t i = 0; i < n; i++ ) at[ order[i] ] = i;
  // Bellman--Ford from every vertex
  std::vector<std::vector<double>> D( n, std::vector<double>( n, INF ) );
  for( std::size_t r = 0; r < n; r++ )
  {
    auto& d = D[r]; d[r] = 0;
    for( std::size_t round = 0; round < n; round++ ) for( std::size_t e = 0; e < A.size(); e++ ) if( A.s[e].size() == 2 ) { auto i = at[ A.s[e][0] ], j = at[ A.s[e][1] ]; double x = A.w[e] == 0 ? w : A.w[e]; d[j] = std::min( d[j], d[i] + x ); d[i] = std::min( d[i], d[j] + x ); }
  }
  auto M = given ? floydWarshall( k, T( w ) ) : floydWarshall( k );
  c.eq( std::size_t( M.numRows() ), n, "paths-size" );
  if( std::size_t( M.numRows() ) != n ) return;
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ )
  {
    auto have = M( V( i ), V( j ) ); bool inf = std::isinf( D[i][j] );
    bool ok = inf ? have == ( std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max() ) : std::fabs( double( have ) - D[i][j] ) <= ( sizeof( T ) == 4 ? 1e-4 : 1e-11 ) * ( 1 + D[i][j] );
    c.expectf( ok, "paths-length", [&]( std::ostream& o ) { o << order[i] << "-" << order[j] << " " << have << " expected " << D[i][j] << " for " << A.text(); } );
  }
}

template <class S> void counting( Ctx& c, unsigned maxId )
{
  using V = typename S::VertexType;
  auto A = c.rng.chance( 0.02 ) ? randomGraph( c, 30, std::max( maxId, 200u ), true ) : randomGraph( c, 10, maxId, true ); cast<typename S::DataType>( A ); auto k = toComplex<S>( A ); auto S_ = sets( A ); auto v = verticesOf( A ); auto W = weightsOf( k );
  c.desc << A.text( 12 ); c.nontrivial( A.digest() );
  auto contains = []( const VSet& s, const VSet& t ) { return std::includes( s.begin(), s.end(), t.begin(), t.end() ); };

  // degrees follow the order of the vertices
  { std::vector<unsigned> d, e; filtrations::degrees( k, std::back_inserter( d ) ); for( auto x : v ) { unsigned n = 0; for( auto& s : S_ ) n += s.size() > 1 && contains( s, VSet{ x } ); e.push_back( n ); } c.expect( d == e, "degrees", str( d ) + " expected " + str( e ) + " for " + A.text() ); }
  for( auto& s : S_ ) { unsigned n = 0; for( auto& t : S_ ) n += int( t.size() ) == A.dimension() + 1 && contains( t, s ); c.eq( filtrations::n_degree( k, toSimplex<S>( s ) ), n, "n-degree" ); }

  // components
  {
    std::map<unsigned,unsigned> root; for( auto x : v ) root[x] = x;
    for( auto& s : S_ ) if( s.size() == 2 ) { auto a = root[ s[0] ], b = root[ s[1] ]; if( a != b ) for( auto& kv : root ) if( kv.second == std::max( a, b ) ) kv.second = std::min( a, b ); }
    std::map<unsigned,std::set<V>> parts; for( auto& kv : root ) parts[ kv.second ].insert( V( kv.first ) );
    auto uf = calculateConnectedComponents( k ); std::vector<V> roots; uf.roots( std::back_inserter( roots ) );
    std::set<std::set<V>> have, want; for( auto& kv : parts ) want.insert( kv.second );
    for( auto r : roots ) { std::vector<V> m; uf.get( r, std::back_inserter( m ) ); std::set<V> q( m.begin(), m.end() ); c.eq( q.size(), m.size(), "component-unique" ); have.insert( q ); for( auto x : m ) c.eq( uf.find( x ), r, "component-root" ); }
    c.expect( have == want && roots.size() == want.size(), "components", A.text() );
    for( auto x : v ) c.expect( uf.contains( V( x ) ), "component-contains" );
  }

  // intersections with simplices inside and outside of the complex
  for( int r = 0; r < 6; r++ )
  {
    VSet s; if( c.rng.chance( 0.3 ) ) s = c.rng.pick( A.s ); else { auto p = v; for( unsigned i = 0; i < 2; i++ ) { auto x = unsigned( c.rng.range( 0, 40 ) ); if( !std::count( p.begin(), p.end(), x ) ) p.push_back( x ); } c.rng.shuffle( p ); s.assign( p.begin(), p.begin() + long( std::min<std::size_t>( p.size(), std::size_t( c.rng.range( 1, 5 ) ) ) ) ); std::sort( s.begin(), s.end() ); }
    auto t = c.rng.pick( A.s ); auto a = toSimplex<S>( s ), b = toSimplex<S>( t );
    VSet m; std::set_intersection( s.begin(), s.end(), t.begin(), t.end(), std::back_inserter( m ) );
    c.eq( sizeOfIntersection( a, b ), m.size(), "intersection-size" ); c.expect( vset( intersect( a, b ) ) == m && vset( intersect( b, a ) ) == m, "intersection" );
    auto values = [&]( const std::set<S>& q ) { std::set<VSet> r2; for( auto&& x : q ) r2.insert( vset( x ) ); return r2; };
    std::set<VSet> all, same; for( auto& u : S_ ) { VSet i; std::set_intersection( s.begin(), s.end(), u.begin(), u.end(), std::back_inserter( i ) ); if( i.empty() ) continue; all.insert( i ); if( u.size() == s.size() ) same.insert( i ); }
    auto I = intersect( k, a ); c.expect( values( I ) == ( S_.count( s ) ? std::set<VSet>{ s } : all ), "complex-intersection", str( s ) + " with " + A.text() );
    c.expect( values( intersectWithConstrainedDimension( k, a ) ) == same, "constrained-intersection", str( s ) + " with " + A.text() );
    auto last = lastLexicographicalIntersection( k, a ); std::size_t largest = 0; for( auto& i : all ) largest = std::max( largest, i.size() );
    auto L = vset( last ); c.expect( L.size() == largest && ( L.empty() || ( S_.count( L ) && contains( s, L ) && double( last.data() ) == W[L] ) ), "last-intersection", str( L ) + " for " + str( s ) + " with " + A.text() );
  }
}

} // namespace

SECTION( cliques, 8000, 100000 )     { TYPES( cliques ) }
SECTION( cliques_many, 300, 4000 )   { TYPES( manyCliques ) }
SECTION( cliquegraph, 8000, 100000 ) { TYPES( cliqueGraph ) }
SECTION( paths, 10000, 120000 )       { if( c.k % 6 == 5 ) paths<Simplex<int,unsigned>>( c, 500 ); else TYPES( paths ) }
SECTION( counting, 8000, 100000 )    { TYPES( counting ) }
