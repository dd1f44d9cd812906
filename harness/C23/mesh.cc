// Half-edge meshes against adjacency computed from the list of faces.
#include "bridge.hh"

#include <iterator>
#include <stdexcept>
#include <tuple>

#include <aleph/topology/Mesh.hh>
#include <aleph/topology/MorseSmaleComplex.hh>

using namespace vp;

namespace
{

using Id = std::size_t; using FaceList = std::vector<std::vector<Id>>; using Edge = std::pair<Id,Id>;

// All faces are consistently oriented.
struct Surface { std::size_t n = 0; FaceList f; std::string kind; };

Surface grid( Ctx& c, int w, int h, bool wrapX, bool wrapY, bool quads )
{
  Surface s; int nx = wrapX ? w : w + 1, ny = wrapY ? h : h + 1; s.n = std::size_t( nx * ny ); auto id = [&]( int x, int y ){ return Id( ( y % ny ) * nx + x % nx ); };
  for( int y = 0; y < h; y++ ) for( int x = 0; x < w; x++ )
  {
    Id a = id( x, y ), b = id( x + 1, y ), d = id( x + 1, y + 1 ), e = id( x, y + 1 );
    if( quads && c.rng.chance( 0.5 ) ) s.f.push_back( { a, b, d, e } );
    else if( !( wrapX || wrapY ) && c.rng.chance( 0.5 ) ) { s.f.push_back( { a, b, d } ); s.f.push_back( { a, d, e } ); } else { s.f.push_back( { a, b, e } ); s.f.push_back( { b, d, e } ); }
  }
  s.kind = wrapX && wrapY ? "torus" : wrapX ? "cylinder" : "disc"; return s;
}

Surface polytope( Ctx& c, int steps )
{
  Surface s; s.n = 4; s.f = { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 1 }, { 1, 3, 2 } }; s.kind = "sphere";
  for( int i = 0; i < steps; i++ ) { std::size_t k = c.rng.below( s.f.size() ); auto f = s.f[k]; Id v = s.n++; s.f[k] = { f[0], f[1], v }; s.f.push_back( { f[1], f[2], v } ); s.f.push_back( { f[2], f[0], v } ); }
  // Edge flips that keep the triangulation simplicial
  for( int i = 0; i < steps * 2; i++ )
  {
    std::size_t a = c.rng.below( s.f.size() ); int r = c.rng.range( 0, 2 ); Id u = s.f[a][std::size_t( r )], v = s.f[a][std::size_t( ( r + 1 ) % 3 )], x = s.f[a][std::size_t( ( r + 2 ) % 3 )]; std::set<Edge> E; std::size_t b = s.f.size(); Id y = 0;
    for( std::size_t j = 0; j < s.f.size(); j++ ) for( int t = 0; t < 3; t++ ) { Id p = s.f[j][std::size_t( t )], q = s.f[j][std::size_t( ( t + 1 ) % 3 )]; E.insert( { p, q } ); if( p == v && q == u ) { b = j; y = s.f[j][std::size_t( ( t + 2 ) % 3 )]; } }
    if( b == s.f.size() || x == y || E.count( { x, y } ) || E.count( { y, x } ) ) continue;
    s.f[a] = { x, u, y }; s.f[b] = { y, v, x };
  }
  return s;
}

Surface surface( Ctx& c )
{
  Surface s; int big = c.rng.chance( c.thorough ? 0.003 : 0.02 ) ? 14 : c.thorough ? 8 : 5;
  switch( c.rng.range( 0, 5 ) )
  {
  case 0: s = grid( c, c.rng.range( 1, big ), c.rng.range( 1, big ), false, false, false ); break;
  case 1: s = grid( c, c.rng.range( 3, big + 1 ), c.rng.range( 1, big ), true, false, false ); break;
  case 2: s = grid( c, c.rng.range( 3, big ), c.rng.range( 3, big ), true, true, false ); break;
  case 3: s = grid( c, c.rng.range( 1, big ), c.rng.range( 1, big ), false, false, true ); break;
  case 4: { s.kind = "fan"; int k = c.rng.range( 1, 9 ); bool closed = k > 2 && c.rng.chance( 0.5 ); s.n = std::size_t( k + ( closed ? 1 : 2 ) ); for( int i = 0; i < k; i++ ) s.f.push_back( { 0, Id( i + 1 ), Id( closed ? ( i + 1 ) % k + 1 : i + 2 ) } ); break; }
  default: s = polytope( c, c.rng.range( 0, big * 3 ) );
  }
  if( c.rng.chance( 0.35 ) ) { std::size_t drop = c.rng.below( s.f.size() / 2 + 1 ); c.rng.shuffle( s.f ); s.f.resize( s.f.size() - drop ); s.kind += " with holes"; }
  if( c.rng.chance( 0.25 ) ) { auto t = grid( c, c.rng.range( 1, 3 ), c.rng.range( 1, 3 ), false, false, false ); for( auto f : t.f ) { for( auto& v : f ) v += s.n; s.f.push_back( f ); } s.n += t.n; s.kind += " and a disc"; }
  if( c.rng.chance( 0.2 ) ) { s.n += std::size_t( c.rng.range( 1, 3 ) ); s.kind += " and isolated vertices"; }
  if( c.rng.chance( 0.5 ) ) for( auto& f : s.f ) std::reverse( f.begin(), f.end() );
  return s;
}

std::vector<Id> rotated( std::vector<Id> f ) { std::rotate( f.begin(), std::min_element( f.begin(), f.end() ), f.end() ); return f; }
std::multiset<std::vector<Id>> normal( const FaceList& F ) { std::multiset<std::vector<Id>> r; for( auto& f : F ) r.insert( rotated( f ) ); return r; }
std::string text( const FaceList& F ) { std::string s; for( auto& f : F ) s += str( f ); return s; }

using M = aleph::topology::Mesh<double,double>;

void verify( Ctx& c, const M& m, const std::map<Id,double>& V, const FaceList& F, const std::string& what, bool stars )
{
  std::map<Id,std::set<Id>> N; std::map<Id,std::map<Id,Id>> next; std::map<Id,std::size_t> degree; for( auto& v : V ) N[ v.first ];
  for( auto& f : F ) for( std::size_t i = 0; i < f.size(); i++ ) { Id a = f[i], b = f[( i + 1 ) % f.size()], p = f[( i + f.size() - 1 ) % f.size()]; N[a].insert( b ); N[b].insert( a ); next[a][b] = p; degree[a]++; }
  auto ids = m.vertices(); std::multiset<Id> have( ids.begin(), ids.end() ), want; for( auto& v : V ) want.insert( v.first ); c.expect( have == want, "vertices", what + " reported " + str( ids ) ); c.eq( m.numVertices(), V.size(), "vertex-count", what );
  auto faces = m.faces(); c.expect( normal( faces ) == normal( F ), "faces", what + " reported " + text( faces ) ); c.eq( m.numFaces(), F.size(), "face-count", what );
  std::map<Id,Id> root; for( auto& v : V ) root[ v.first ] = v.first; std::function<Id(Id)> find = [&]( Id x ){ while( root[x] != x ) x = root[x]; return x; }; std::size_t comps = V.size(); for( auto& kv : N ) for( auto y : kv.second ) { Id a = find( kv.first ), b = find( y ); if( a != b ) { root[a] = b; comps--; } }
  c.eq( m.numConnectedComponents(), comps, "components", what );
  for( auto& v : V )
  {
    Id id = v.first; std::string w = what + " vertex " + std::to_string( id ); c.eq( m.data( id ), v.second, "data", w );
    auto link = m.link( id ); std::multiset<Id> l( link.begin(), link.end() ), e( N[id].begin(), N[id].end() ); c.expect( l == e, "link", w + " reported " + str( link ) );
    auto lo = m.getLowerNeighbours( id ), hi = m.getHigherNeighbours( id ); std::multiset<Id> ls( lo.begin(), lo.end() ), hs( hi.begin(), hi.end() ), le, he; for( auto y : N[id] ) { if( V.at( y ) < v.second ) le.insert( y ); if( V.at( y ) > v.second ) he.insert( y ); } c.expect( ls == le, "lower", w + " reported " + str( lo ) ); c.expect( hs == he, "higher", w + " reported " + str( hi ) );
    // Consecutive vertices of the link belong to a common face, in the order of its orientation; at most one gap
    bool triangles = true; for( auto& f : F ) triangles = triangles && f.size() == 3; std::size_t fans = N[id].size() - degree[id]; // number of paths in the link
    if( triangles && l == e && !link.empty() && fans <= 1 )
    {
      std::size_t steps = 0; for( std::size_t i = 0; i < link.size(); i++ ) { auto it = next[id].find( link[i] ); steps += it != next[id].end() && it->second == link[( i + 1 ) % link.size()]; } c.eq( steps, degree[id], "link-order", w + " reported " + str( link ) );
    }
    for( auto& u : V ) if( V.size() < 40 || c.rng.chance( 0.1 ) || N[id].count( u.first ) ) c.eq( m.hasEdge( id, u.first ), N[id].count( u.first ) > 0, "edge", w + " to " + std::to_string( u.first ) );
    if( stars && N[id].empty() ) c.eq( m.star( id ).numFaces(), std::size_t( 0 ), "star-isolated", w );
    if( stars && !N[id].empty() )
    {
      FaceList S; std::set<Id> SV; for( auto& f : F ) if( std::find( f.begin(), f.end(), id ) != f.end() ) { S.push_back( f ); SV.insert( f.begin(), f.end() ); } auto st = m.star( id ); auto sv = st.vertices(); std::set<Id> svs( sv.begin(), sv.end() ); c.expect( svs == SV && sv.size() == SV.size(), "star-vertices", w + " reported " + str( sv ) ); auto sf = st.faces(); c.expect( normal( sf ) == normal( S ), "star-faces", w + " reported " + text( sf ) ); c.eq( st.numFaces(), S.size(), "star-face-count", w );
      if( svs == SV ) for( auto u : SV ) { c.eq( st.data( u ), V.at( u ), "star-data", w ); for( auto x : SV ) { bool edge = false; for( auto& f : S ) for( std::size_t i = 0; i < f.size(); i++ ) edge = edge || ( f[i] == u && f[( i + 1 ) % f.size()] == x ) || ( f[i] == x && f[( i + 1 ) % f.size()] == u ); c.eq( st.hasEdge( u, x ), edge, "star-edge", w ); } }
    }
  }
}

void build( Ctx& c, bool stepwise )
{
  auto s = surface( c ); int ids = c.rng.range( 0, 2 ); std::vector<Id> name( s.n ); std::set<Id> used; for( std::size_t i = 0; i < s.n; i++ ) { Id x = i; if( ids == 1 ) do x = c.rng.below( 4 * s.n ); while( used.count( x ) ); if( ids == 2 ) do x = c.rng.below( 1000000 ); while( used.count( x ) ); used.insert( x ); name[i] = x; }
  std::map<Id,double> V; M m; std::vector<std::size_t> order( s.n ); for( std::size_t i = 0; i < s.n; i++ ) order[i] = i; bool automatic = ids == 0 && c.rng.chance( 0.5 ); if( !automatic ) c.rng.shuffle( order ); bool ties = c.rng.chance( 0.5 );
  for( auto i : order ) { double d = ties ? c.rng.range( 0, 4 ) : c.rng.real( -1, 1 ); V[ name[i] ] = d; if( automatic ) m.addVertex( c.rng.real(), c.rng.real(), c.rng.real(), d ); else m.addVertex( c.rng.real(), c.rng.real(), c.rng.real(), d, name[i] ); }
  if( c.rng.chance( 0.7 ) ) c.rng.shuffle( s.f ); FaceList F; std::string all; std::uint64_t h = s.n; for( auto& f : s.f ) { for( auto& v : f ) v = name[v]; std::rotate( f.begin(), f.begin() + std::ptrdiff_t( c.rng.below( f.size() ) ), f.end() ); for( auto v : f ) h = combine( h, v ); } std::string w = s.kind + " " + text( s.f ); c.desc << w; c.nontrivial( h );
  if( stepwise ) verify( c, m, V, F, w + " before faces", false );
  for( auto& f : s.f ) { if( c.rng.chance( 0.3 ) ) { std::vector<unsigned> g( f.begin(), f.end() ); m.addFace( g.begin(), g.end() ); } else m.addFace( f.begin(), f.end() ); F.push_back( f ); if( stepwise ) verify( c, m, V, F, w + " after " + std::to_string( F.size() ), false ); }
  verify( c, m, V, F, w, true );
  // Classifying all vertices only reports to the error stream; it has to cope with empty links
  if( !stepwise ) { std::ostringstream o; auto old = std::cerr.rdbuf( o.rdbuf() ); bool ok = true; try { aleph::topology::MorseSmaleComplex<M>()( m ); } catch( ... ) { ok = false; } std::cerr.rdbuf( old ); c.expect( ok, "classification", w ); }
  c.throws( [&]{ m.addVertex( 0, 0, 0, 0, V.begin()->first ); }, "duplicate-vertex", w ); c.throws( [&]{ m.data( 99999999 ); }, "unknown-vertex", w );
}

SECTION( surfaces, 2500, 25000 ) { build( c, false ); }
SECTION( stepwise, 800, 8000 ) { build( c, true ); }

SECTION( orders, 1200, 12000 )
{
  // All insertion orders of the faces of small surfaces; rotations by case number
  std::vector<FaceList> S { { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 1 }, { 1, 3, 2 } }, { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 0, 4, 1 } }, { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 0, 4, 5 }, { 0, 5, 1 } }, { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 4, 3, 5 }, { 0, 5, 6 } }, { { 0, 1, 2 }, { 2, 1, 3 }, { 2, 3, 4 }, { 4, 3, 5 }, { 4, 5, 0 }, { 0, 5, 1 } } };
  auto F = S[ c.k % S.size() ]; std::uint64_t p = c.k / S.size(); std::vector<std::size_t> rest; for( std::size_t i = 0; i < F.size(); i++ ) rest.push_back( i ); FaceList G; std::map<Id,double> V; M m; for( Id i = 0; i < 7; i++ ) { bool used = false; for( auto& f : F ) for( auto v : f ) used = used || v == i; if( used ) { V[i] = double( i ); m.addVertex( 0, 0, 0, double( i ), i ); } }
  while( !rest.empty() ) { std::size_t i = p % rest.size(); p /= rest.size(); auto f = F[ rest[i] ]; rest.erase( rest.begin() + std::ptrdiff_t( i ) ); std::rotate( f.begin(), f.begin() + std::ptrdiff_t( c.rng.below( 3 ) ), f.end() ); m.addFace( f.begin(), f.end() ); G.push_back( f ); verify( c, m, V, G, text( G ), true ); }
  c.desc << text( G ); std::uint64_t h = c.k; for( auto& f : G ) for( auto v : f ) h = combine( h, v ); c.nontrivial( h );
}

SECTION( identifiers, 1500, 15000 )
{
  // Explicit and automatic vertex identifiers in any order: all distinct, data preserved
  M m; std::map<Id,double> V; std::string log; std::uint64_t h = 0;
  for( int i = 0, n = c.rng.range( 1, 15 ); i < n; i++ )
  {
    double d = i + 0.5;
    if( c.rng.chance( 0.5 ) ) { Id x = c.rng.below( 25 ); log += " " + std::to_string( x ); h = combine( h, x ); if( V.count( x ) ) c.throws( [&]{ m.addVertex( 0, 0, 0, d, x ); }, "duplicate", log ); else { m.addVertex( 0, 0, 0, d, x ); V[x] = d; } }
    else { log += " auto"; h = combine( h, 99 ); m.addVertex( 0, 0, 0, d ); auto ids = m.vertices(); std::vector<Id> fresh; for( auto x : ids ) if( !V.count( x ) ) fresh.push_back( x ); c.eq( fresh.size(), std::size_t( 1 ), "automatic", log ); if( fresh.size() == 1 ) V[ fresh[0] ] = d; }
    verify( c, m, V, {}, log, false );
  }
  c.desc << log; c.nontrivial( h );
}

} // namespace
