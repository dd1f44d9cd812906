#include "bridge.hh"

#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/UnionFind.hh>

using namespace vp;

namespace
{

// Reference: merge history of the connected components under the elder rule
struct Merge { unsigned younger, older; std::size_t creator, edge; unsigned u, v; };

struct History
{
  std::vector<Merge> merges; std::map<unsigned,unsigned> root; std::map<unsigned,std::size_t> index;
};

History components( const Cx& K )
{
  History H; for( std::size_t i = 0; i < K.size(); i++ ) if( K.s[i].size() == 1 ) { H.root[ K.s[i][0] ] = K.s[i][0]; H.index[ K.s[i][0] ] = i; }
  for( std::size_t i = 0; i < K.size(); i++ ) if( K.s[i].size() == 2 )
  {
    unsigned a = H.root[ K.s[i][0] ], b = H.root[ K.s[i][1] ]; if( a == b ) continue;
    if( H.index[a] < H.index[b] ) std::swap( a, b );   // a is younger
    H.merges.push_back( { a, b, H.index[a], i, K.s[i][0], K.s[i][1] } ); for( auto& kv : H.root ) if( kv.second == a ) kv.second = b;
  }
  return H;
}

template <class V, class T> struct Recorder
{
  std::vector<V> initialized; struct E { V younger, older; T creation, destruction; V u, v; }; std::vector<E> merges; std::vector<std::pair<V,T>> roots;
  void initialize( V v ) { initialized.push_back( v ); }
  void operator()( V y, V o, T c, T d, V u, V v ) { merges.push_back( { y, o, c, d, u, v } ); }
  void operator()( V r, T c ) { roots.push_back( { r, c } ); }
};

template <class P> std::vector<std::pair<std::size_t,std::size_t>> toPairs( const P& p )
{
  std::vector<std::pair<std::size_t,std::size_t>> r; for( auto&& x : p ) r.push_back( { std::size_t( x.first ), x.second == std::numeric_limits<typename P::IndexType>::max() ? INF_INDEX : std::size_t( x.second ) } ); std::sort( r.begin(), r.end() ); return r;
}

Cx makeComplex( Ctx& c, unsigned maxId )
{
  CxOptions o; o.maxVertices = c.k % 5 == 0 ? 30 : 10; o.maxDim = 3; o.maxGenerators = c.k % 5 == 0 ? 40 : 14; o.maxId = maxId;
  if( c.k % 3 == 0 ) { o.maxDim = 1; }
  auto K = randomComplex( c.rng, o ); if( c.rng.chance( 0.35 ) ) for( auto& w : K.w ) w = -w;   // superlevel order
  return K;
}

// Long paths, combs and random graphs: deep merge histories
Cx largeGraph( Ctx& c, unsigned maxId )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 200, 900 ) ); auto ids = vertexIds( c.rng, n, c.rng.range( 0, 2 ), maxId ); int mode = c.rng.range( 0, 3 ); if( mode > 1 ) c.rng.shuffle( ids );
  std::set<VSet> X; for( auto v : ids ) X.insert( { v } ); auto edge = [&]( std::size_t i, std::size_t j ) { if( i != j ) X.insert( { std::min( ids[i], ids[j] ), std::max( ids[i], ids[j] ) } ); };
  if( mode == 3 ) for( std::size_t i = 0; i < n; i++ ) edge( c.rng.below( n ), c.rng.below( n ) ); else for( std::size_t i = 1; i < n; i++ ) if( c.rng.chance( 0.99 ) ) edge( i, mode == 1 && i > 2 ? i - 2 : i - 1 );
  auto K = orderComplex( c.rng, randomWeights( c.rng, X, c.rng.pick( std::vector<int> { 0, 1, 4 } ) ), false ); if( c.rng.chance( 0.35 ) ) for( auto& w : K.w ) w = -w; return K;
}

template <class S> void zero( Ctx& c, unsigned maxId, bool large = false )
{
  using V = typename S::VertexType; using T = typename S::DataType; using Pairing_ = aleph::PersistencePairing<V>;
  auto K = large ? largeGraph( c, maxId ) : makeComplex( c, maxId ); if( !std::is_floating_point<T>::value ) for( auto& w : K.w ) w = std::floor( w ); else for( auto& w : K.w ) w = double( T( w ) );
  auto L = toComplex<S>( K ); auto H = components( K ); c.desc << K.text(); if( !H.merges.empty() ) c.nontrivial( K.digest() );

  // The reference history has to be the homology of the complex itself
  std::vector<std::pair<std::size_t,std::size_t>> all, reduced; Dgm dAll, dReduced; std::set<unsigned> alive; for( auto& kv : H.root ) alive.insert( kv.second );
  for( auto& m : H.merges ) { all.push_back( { m.creator, m.edge } ); dAll.push_back( { K.w[ m.creator ], K.w[ m.edge ] } ); if( K.w[ m.creator ] != K.w[ m.edge ] ) { reduced.push_back( all.back() ); dReduced.push_back( dAll.back() ); } }
  for( auto r : alive ) { std::pair<std::size_t,std::size_t> p { H.index[r], INF_INDEX }; all.push_back( p ); reduced.push_back( p ); std::pair<double,double> q { K.w[ H.index[r] ], INF }; dAll.push_back( q ); dReduced.push_back( q ); }
  for( auto* x : { &all, &reduced } ) std::sort( x->begin(), x->end() ); std::sort( dAll.begin(), dAll.end() ); std::sort( dReduced.begin(), dReduced.end() );
  if( !large ) { auto P = persistence( K, true ); std::vector<std::pair<std::size_t,std::size_t>> z; for( auto& p : P.pairs ) if( K.s[ p.first ].size() == 1 ) z.push_back( p ); if( z != all ) throw std::logic_error( "reference models disagree" ); }

  using namespace aleph::traits;
  auto A = aleph::calculateZeroDimensionalPersistenceDiagram<S>( L );
  c.expect( toDgm( std::get<0>( A ) ) == dReduced, "diagram", str( toDgm( std::get<0>( A ) ) ) + " expected " + str( dReduced ) ); c.expect( std::get<1>( A ).empty(), "no-pairing" ); c.eq( std::get<0>( A ).dimension(), std::size_t( 0 ), "diagram-dimension" );
  auto B = aleph::calculateZeroDimensionalPersistenceDiagram<S,PersistencePairingCalculation<Pairing_>>( L );
  c.expect( toDgm( std::get<0>( B ) ) == dReduced, "diagram-with-pairing" ); c.expect( toPairs( std::get<1>( B ) ) == reduced, "pairing" );
  auto C = aleph::calculateZeroDimensionalPersistenceDiagram<S,PersistencePairingCalculation<Pairing_>,DiagonalElementCalculation>( L );
  c.expect( toDgm( std::get<0>( C ) ) == dAll, "diagram-with-diagonal" ); c.expect( toPairs( std::get<1>( C ) ) == all, "pairing-with-diagonal" );
  auto D = aleph::calculateZeroDimensionalPersistenceDiagram<S,NoPersistencePairingCalculation<Pairing_>,DiagonalElementCalculation>( L ); c.expect( toDgm( std::get<0>( D ) ) == dAll, "diagram-with-diagonal-only" ); c.expect( std::get<1>( D ).empty(), "no-pairing" );

  Recorder<V,T> R; aleph::calculateZeroDimensionalPersistenceDiagram<S,NoPersistencePairingCalculation<Pairing_>,NoDiagonalElementCalculation>( L, R );
  { std::set<unsigned> have( R.initialized.begin(), R.initialized.end() ), want; for( auto& kv : H.root ) want.insert( kv.first ); c.expect( have == want && R.initialized.size() == want.size(), "callback-initialize" ); }
  c.eq( R.merges.size(), H.merges.size(), "callback-merges" );
  for( std::size_t i = 0; i < std::min( R.merges.size(), H.merges.size() ); i++ )
  {
    auto& a = R.merges[i]; auto& e = H.merges[i]; c.expect( unsigned( a.younger ) == e.younger && unsigned( a.older ) == e.older, "callback-elder-rule", "merge " + std::to_string( i ) );
    c.expect( double( a.creation ) == K.w[ e.creator ] && double( a.destruction ) == K.w[ e.edge ], "callback-values" ); c.expect( std::set<unsigned> { unsigned( a.u ), unsigned( a.v ) } == std::set<unsigned> { e.u, e.v }, "callback-edge" );
  }
  { std::set<unsigned> have; bool values = true; for( auto& r : R.roots ) { have.insert( unsigned( r.first ) ); values = values && H.index.count( unsigned( r.first ) ) && double( r.second ) == K.w[ H.index[ unsigned( r.first ) ] ]; } c.expect( have == alive && R.roots.size() == alive.size(), "callback-roots" ); c.expect( values, "callback-root-values" ); }
  c.expect( fromComplex( L ).s == K.s && fromComplex( L ).w == K.w, "input-unchanged" );

  // Connected components
  auto uf = aleph::topology::calculateConnectedComponents( L ); std::vector<V> roots; uf.roots( std::back_inserter( roots ) ); c.eq( roots.size(), alive.size(), "component-count" ); std::size_t total = 0;
  for( auto r : roots )
  {
    std::vector<V> m; uf.get( r, std::back_inserter( m ) ); std::set<unsigned> have( m.begin(), m.end() ), want; if( !H.root.count( unsigned( r ) ) ) { c.expect( false, "component-root" ); continue; } for( auto& kv : H.root ) if( kv.second == H.root[ unsigned( r ) ] ) want.insert( kv.first );
    c.expect( have == want && m.size() == want.size(), "component-members" ); total += m.size(); for( auto v : m ) c.expect( uf.find( v ) == r && uf.contains( v ), "component-find" );
  }
  c.eq( total, H.root.size(), "component-partition" );
}

// Reference for the hierarchy. The edge decision is only determined if the
// path between two critical vertices is unique, i.e. if the graph is a forest.
std::vector<std::pair<unsigned,unsigned>> hierarchy( const Cx& G, const History& H )
{
  std::map<VSet,unsigned> tag; std::map<unsigned,unsigned> crit, last; std::map<unsigned,std::set<unsigned>> adj; auto value = [&]( unsigned v ) { return G.w[ H.index.at( v ) ]; }; std::map<VSet,double> ew;
  for( auto& kv : H.root ) crit[ kv.first ] = last[ kv.first ] = kv.first;
  for( std::size_t i = 0; i < G.size(); i++ ) if( G.s[i].size() == 2 )
  {
    unsigned y = G.s[i][0], o = G.s[i][1]; if( H.index.at( y ) < H.index.at( o ) ) std::swap( y, o ); if( value( y ) == G.w[i] ) crit[y] = crit[o]; tag[ G.s[i] ] = crit[o]; adj[y].insert( o ); adj[o].insert( y ); ew[ G.s[i] ] = G.w[i];
  }
  std::vector<std::pair<unsigned,unsigned>> E;
  for( auto& m : H.merges )
  {
    double d = G.w[ m.edge ]; if( value( m.younger ) == d ) { last[ m.younger ] = m.older; continue; }
    unsigned a = last[ m.younger ], b = last[ m.older ]; if( H.index.at( a ) < H.index.at( b ) ) std::swap( a, b );   // b precedes a
    double lo = std::min( value( b ), d ), hi = std::max( value( b ), d ); auto in = [&]( double x ) { return x >= lo && x <= hi; };
    // unique path from b to a
    std::map<unsigned,unsigned> from; std::vector<unsigned> st; if( in( value( b ) ) ) { st.push_back( b ); from[b] = b; }
    while( !st.empty() ) { unsigned x = st.back(); st.pop_back(); for( auto y : adj[x] ) { VSet e { std::min( x, y ), std::max( x, y ) }; if( !from.count( y ) && in( value( y ) ) && in( ew[e] ) ) { from[y] = x; st.push_back( y ); } } }
    bool two = false; if( from.count( a ) ) { std::set<unsigned> seen; for( unsigned x = a; from[x] != x; x = from[x] ) seen.insert( tag[ VSet { std::min( x, from[x] ), std::max( x, from[x] ) } ] ); two = seen.size() == 2; }
    E.push_back( { two ? last[ m.older ] : m.older, m.younger } ); last[ m.older ] = m.younger;
  }
  return E;
}

template <class S> void extended( Ctx& c, unsigned maxId )
{
  Cx K; bool forest = c.k % 2;
  if( forest )
  {
    std::size_t n = static_cast<std::size_t>( c.rng.range( 2, 14 ) ); auto ids = vertexIds( c.rng, n, c.rng.range( 0, 2 ), maxId ); c.rng.shuffle( ids ); std::set<VSet> X; for( auto v : ids ) X.insert( { v } ); bool path = c.rng.chance( 0.5 );
    for( std::size_t i = 1; i < n; i++ ) if( c.rng.chance( 0.95 ) ) { auto j = path ? i - 1 : c.rng.below( i ); X.insert( { std::min( ids[i], ids[j] ), std::max( ids[i], ids[j] ) } ); }
    K = orderComplex( c.rng, randomWeights( c.rng, X, c.rng.pick( std::vector<int> { 0, 1, 4, 4 } ) ), false ); if( c.rng.chance( 0.4 ) ) for( auto& w : K.w ) w = -w;
  }
  else K = makeComplex( c, maxId );
  auto L = toComplex<S>( K ); c.desc << K.text();
  Cx G; for( std::size_t i = 0; i < K.size(); i++ ) if( K.s[i].size() <= 2 ) { G.s.push_back( K.s[i] ); G.w.push_back( K.w[i] ); }
  auto H = components( G ); if( !H.merges.empty() ) c.nontrivial( K.digest() );
  std::vector<std::pair<std::size_t,std::size_t>> all; for( auto& m : H.merges ) all.push_back( { m.creator, m.edge } ); std::set<unsigned> alive; for( auto& kv : H.root ) alive.insert( kv.second ); for( auto r : alive ) all.push_back( { H.index[r], INF_INDEX } ); std::sort( all.begin(), all.end() );
  aleph::ExtendedPersistenceHierarchy<S> eph; auto R = eph( L ); c.expect( toPairs( R.first ) == all, "hierarchy-pairing" );

  std::vector<unsigned> children, expected; for( auto& m : H.merges ) if( G.w[ m.creator ] != G.w[ m.edge ] ) expected.push_back( m.younger );
  std::map<unsigned,unsigned> uf; for( auto& kv : H.root ) uf[ kv.first ] = kv.first; auto find = [&]( unsigned x ) { while( uf[x] != x ) x = uf[x]; return x; }; bool tree = true, known = true, same = true;
  for( auto& e : R.second ) { unsigned p = unsigned( e.first ), q = unsigned( e.second ); children.push_back( q ); if( !uf.count( p ) || !uf.count( q ) ) { known = false; continue; } same = same && H.root[p] == H.root[q]; auto a = find( p ), b = find( q ); tree = tree && a != b; uf[a] = b; }
  c.expect( known, "hierarchy-vertices" ); c.expect( children == expected, "hierarchy-children", str( children ) + " expected " + str( expected ) ); c.expect( tree, "hierarchy-acyclic" ); c.expect( same, "hierarchy-component" );
  if( forest ) { auto E = hierarchy( G, H ); std::vector<std::pair<unsigned,unsigned>> have; for( auto& e : R.second ) have.push_back( { unsigned( e.first ), unsigned( e.second ) } ); c.expect( have == E, "hierarchy-edges", str( have ) + " expected " + str( E ) ); }
}

} // namespace

SECTION( components_double, 3000, 40000 ) { zero<aleph::topology::Simplex<double,unsigned>>( c, 1000000 ); }
SECTION( components_float, 1500, 20000 ) { zero<aleph::topology::Simplex<float,unsigned short>>( c, 60000 ); }
SECTION( components_int, 1000, 15000 ) { zero<aleph::topology::Simplex<int,unsigned>>( c, 60000 ); }
SECTION( components_large, 20, 300 ) { if( c.k % 2 ) zero<aleph::topology::Simplex<double,unsigned>>( c, 1000000, true ); else zero<aleph::topology::Simplex<float,unsigned short>>( c, 60000, true ); }
SECTION( hierarchy_double, 3000, 40000 ) { extended<aleph::topology::Simplex<double,unsigned>>( c, 1000000 ); }
SECTION( hierarchy_float, 1000, 15000 ) { extended<aleph::topology::Simplex<double,unsigned short>>( c, 60000 ); }

SECTION( union_find, 3000, 40000 )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, c.k % 200 == 9 ? 600 : 60 ) ); auto ids = vertexIds( c.rng, n, c.rng.range( 0, 2 ), 100000 ); c.rng.shuffle( ids );
  aleph::topology::UnionFind<unsigned> uf( ids.begin(), ids.end() ); std::map<unsigned,unsigned> root; for( auto v : ids ) root[v] = v;
  int ops = c.rng.range( 0, 3 * int( n ) ); std::vector<unsigned> log; c.expect( !uf.contains( 2000000 ), "contains-unknown" );
  c.throws( [&] { uf.find( 2000001 ); }, "find-unknown" ); c.expect( !uf.contains( 2000001 ), "contains-after-unknown" );
  for( int i = 0; i < ops; i++ )
  {
    unsigned u = c.rng.pick( ids ), v = c.rng.pick( ids );
    if( c.rng.chance( 0.6 ) ) { log.push_back( u ); log.push_back( v ); uf.merge( u, v ); unsigned a = root[u], b = root[v]; for( auto& kv : root ) if( kv.second == a ) kv.second = b; c.eq( uf.find( u ), b, "merge-direction" ); }
    else c.eq( uf.find( u ), root[u], "find" );
    if( c.rng.chance( 0.1 ) || i + 1 == ops )
    {
      std::vector<unsigned> r; uf.roots( std::back_inserter( r ) ); std::set<unsigned> have( r.begin(), r.end() ), want; for( auto& kv : root ) want.insert( kv.second ); c.expect( have == want && r.size() == want.size(), "roots" );
      std::vector<unsigned> m; uf.get( u, std::back_inserter( m ) ); std::set<unsigned> hm( m.begin(), m.end() ), wm; for( auto& kv : root ) if( kv.second == root[u] ) wm.insert( kv.first ); c.expect( hm == wm && m.size() == wm.size(), "members" );
    }
  }
  c.desc << n << " vertices, merges " << str( log ); if( !log.empty() ) c.nontrivial( dig( log ) );
}
