#include "bridge.hh"

#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

using namespace vp;
using namespace aleph::topology;

namespace
{

bool lexLess( const VSet& a, const VSet& b ) { return std::lexicographical_compare( a.rbegin(), a.rend(), b.rbegin(), b.rend() ); }

template <class S> void value( Ctx& c, unsigned maxId )
{
  using V = typename S::VertexType; using D = typename S::DataType;
  int n = c.k % 40 == 7 ? c.rng.range( 20, 120 ) : c.rng.range( 0, 9 ); std::vector<unsigned> raw; bool small = c.rng.chance( 0.4 );
  for( int i = 0; i < n; i++ ) raw.push_back( static_cast<unsigned>( c.rng.below( small ? 12 : maxId ) ) );
  if( c.rng.chance( 0.3 ) && n ) raw.push_back( raw[ c.rng.below( raw.size() ) ] );
  std::set<unsigned> u( raw.begin(), raw.end() ); VSet e( u.begin(), u.end() );
  c.desc << "vertices " << str( raw ); if( e.size() > 1 ) c.nontrivial( dig( raw ) );
  auto make = [&]( std::vector<unsigned> v, double w ) { std::vector<V> x( v.begin(), v.end() ); return S( x.begin(), x.end(), static_cast<D>( w ) ); };
  double w = c.rng.range( -3, 9 );
  auto s = make( raw, w );

  c.expect( vset( s ) == e, "vertices" ); c.eq( s.size(), e.size(), "size" ); c.eq( s.empty(), e.empty(), "empty" ); c.eq( bool( s ), !e.empty(), "bool" );
  c.eq( double( s.data() ), w, "data" );
  if( e.empty() ) c.throws( [&] { (void) s.dimension(); }, "empty-dimension" ); else c.eq( s.dimension(), e.size() - 1, "dimension" );
  {
    // The stored sequence: iteration, reverse iteration and indices agree
    std::vector<V> f( s.begin(), s.end() ), r( s.rbegin(), s.rend() ), g; std::reverse( r.begin(), r.end() ); for( std::size_t i = 0; i < s.size(); i++ ) g.push_back( s[i] );
    c.expect( f == r && f == g, "iteration" ); c.throws( [&] { (void) s[ e.size() ]; }, "index-range" );
  }
  for( auto v : e ) c.expect( s.contains( static_cast<V>( v ) ), "contains" );
  for( int i = 0; i < 4; i++ ) { unsigned v = static_cast<unsigned>( c.rng.below( small ? 14 : maxId ) ); c.eq( s.contains( static_cast<V>( v ) ), u.count( v ) > 0, "contains" ); }

  // Order of construction and repetition do not matter
  auto p = raw; c.rng.shuffle( p ); auto t = make( p, w + 1 );
  c.expect( s == t && !( s != t ) && !( s < t ) && !( t < s ), "equality-permuted" ); c.eq( std::hash<S>()( s ), std::hash<S>()( t ), "hash-permuted" );
  S x( s, static_cast<D>( 7.1 ) ); c.expect( x == s && x.data() == static_cast<D>( 7.1 ), "copy-with-data" ); x.setData( static_cast<D>( 5.3 ) ); c.expect( x.data() == static_cast<D>( 5.3 ) && double( s.data() ) == w, "set-data" );
  if( e.size() == 1 ) { S y( static_cast<V>( e[0] ), static_cast<D>( 3.3 ) ); c.expect( y == s && y.data() == static_cast<D>( 3.3 ), "vertex-constructor" ); }
  if( e.size() == 3 ) { S y( { static_cast<V>( e[1] ), static_cast<V>( e[2] ), static_cast<V>( e[0] ) }, static_cast<D>( 3.7 ) ); c.expect( y == s && y.data() == static_cast<D>( 3.7 ), "initializer-list" ); }

  // Comparison with another simplex
  std::vector<unsigned> q; int k = c.rng.range( 0, 5 ); for( int i = 0; i < k; i++ ) q.push_back( !e.empty() && c.rng.chance( 0.6 ) ? e[ c.rng.below( e.size() ) ] : static_cast<unsigned>( c.rng.below( small ? 12 : maxId ) ) );
  std::set<unsigned> qu( q.begin(), q.end() ); VSet qe( qu.begin(), qu.end() ); auto z = make( q, w );
  c.eq( s == z, e == qe, "equality" ); c.eq( s != z, e != qe, "inequality" ); c.eq( s < z, lexLess( e, qe ), "less" ); c.eq( z < s, lexLess( qe, e ), "greater" );
  if( e == qe ) c.eq( std::hash<S>()( s ), std::hash<S>()( z ), "hash" );

  // Boundary
  std::multiset<VSet> B, EB; for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it ) B.insert( vset( *it ) ); for( auto& f : facesOf( e ) ) EB.insert( f );
  c.expect( B == EB, "boundary" );
  for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it ) c.expect( *it < s, "face-precedes" );

  // Printing shows every vertex once and the data if there is any
  std::ostringstream o; o << s; std::string text = o.str(); std::istringstream in( text ); std::string tok; std::multiset<unsigned> seen; bool data = false;
  for( auto& ch : text ) if( ch == '{' || ch == '}' ) ch = ' '; in.str( text ); while( in >> tok ) { if( tok[0] == '(' ) data = tok == "(" + strx( s.data() ) + ")"; else seen.insert( static_cast<unsigned>( std::stoul( tok ) ) ); }
  c.expect( seen == std::multiset<unsigned>( e.begin(), e.end() ) && data == ( w != 0 ), "print", o.str() );
}

} // namespace

SECTION( simplex_double, 6000, 80000 ) { value<Simplex<double,unsigned>>( c, 4000000000u ); }
SECTION( simplex_float, 3000, 40000 ) { value<Simplex<float,unsigned short>>( c, 65535 ); }
SECTION( simplex_int, 2000, 30000 ) { value<Simplex<int,int>>( c, 2000000000u ); }
SECTION( simplex_wide, 2000, 30000 ) { value<Simplex<long,std::size_t>>( c, 4000000000u ); }

// Hashing works as a key for sets of simplices
SECTION( hashing, 300, 3000 )
{
  using S = Simplex<double,unsigned>; CxOptions o; o.maxVertices = 12; auto K = randomComplex( c.rng, o ); c.nontrivial( K.digest() );
  std::unordered_set<S> H; for( std::size_t i = 0; i < K.size(); i++ ) { auto v = K.s[i]; c.rng.shuffle( v ); H.insert( toSimplex<S>( v, 1 ) ); H.insert( toSimplex<S>( K.s[i], 2 ) ); }
  c.eq( H.size(), K.size(), "hash-set" ); bool all = true; for( auto& s : K.s ) all = all && H.count( toSimplex<S>( s, 5 ) ); c.expect( all, "hash-lookup" );
}

namespace
{

template <class S, class Compare, class Value> void order( Ctx& c, std::vector<std::pair<VSet,double>> items, Compare cmp, Value value, bool ascending, bool faces, const std::string& key )
{
  std::vector<VSet> first;
  for( int round = 0; round < 3; round++ )
  {
    c.rng.shuffle( items ); std::vector<S> v; for( auto& x : items ) { auto q = x.first; c.rng.shuffle( q ); v.push_back( toSimplex<S>( q, x.second ) ); }
    SimplicialComplex<S> K( v.begin(), v.end() ); K.sort( cmp );
    std::vector<VSet> seq; for( auto&& s : K ) seq.push_back( vset( s ) );
    if( round == 0 ) first = seq; else c.expect( seq == first, key + "-insertion-order" );
    c.eq( K.size(), items.size(), key + "-size" );
    std::map<VSet,double> W = weightsOf( K ); bool data = true; for( auto& x : items ) data = data && W.at( x.first ) == x.second; c.expect( data, key + "-data" );
    std::set<VSet> seen; bool f = true, mono = true; double last = ascending ? -INF : INF;
    for( auto& s : seq ) { for( auto& x : facesOf( s ) ) f = f && seen.count( x ); seen.insert( s ); double y = value( s ); mono = mono && ( ascending ? y >= last : y <= last ); last = y; }
    c.expect( mono, key + "-monotone" ); if( faces ) c.expect( f, key + "-faces-first" );
    // Strict weak order: irreflexive, antisymmetric, total on distinct simplices
    for( int i = 0; i < 10; i++ ) { auto& a = v[ c.rng.below( v.size() ) ]; auto& b = v[ c.rng.below( v.size() ) ]; if( a == b ) c.expect( !cmp( a, b ) && !cmp( b, a ), key + "-irreflexive" ); else c.expect( cmp( a, b ) != cmp( b, a ), key + "-total" ); }
  }
}

template <class S> void orders( Ctx& c )
{
  using D = typename S::DataType;
  CxOptions o; o.idMode = c.rng.range( 0, 1 ); o.maxVertices = c.k % 50 == 7 ? 60 : 10; if( o.maxVertices > 10 ) o.maxGenerators = 120; auto S0 = randomSimplices( c.rng, o );
  std::map<unsigned,double> f; bool reals = c.rng.chance( 0.3 ) && std::is_floating_point<D>::value; for( auto& s : S0 ) for( auto v : s ) if( !f.count( v ) ) f[v] = reals ? double( float( c.rng.real( -5, 5 ) ) ) : c.rng.range( -3, 3 );
  std::vector<D> values( f.rbegin()->first + 1, D( 0 ) ); for( auto& kv : f ) values[ kv.first ] = static_cast<D>( kv.second );
  auto mx = [&]( const VSet& s ) { double m = -INF; for( auto v : s ) m = std::max( m, f.at( v ) ); return m; }; auto mn = [&]( const VSet& s ) { double m = INF; for( auto v : s ) m = std::min( m, f.at( v ) ); return m; };
  std::map<VSet,double> W;
  c.desc << S0.size() << " simplices, values " << str( values ); c.nontrivial( combine( dig( S0 ), dig( values ) ) );

  std::vector<std::pair<VSet,double>> up, down, none, rnd;
  for( auto& s : S0 ) { up.push_back( { s, mx( s ) } ); down.push_back( { s, mn( s ) } ); none.push_back( { s, 0 } ); rnd.push_back( { s, double( c.rng.range( -2, 2 ) ) } ); }
  std::map<VSet,double> R( rnd.begin(), rnd.end() );

  order<S>( c, up, filtrations::Data<S>(), mx, true, true, "data" );
  order<S>( c, down, filtrations::Data<S,std::greater<D>>(), mn, false, true, "data-descending" );
  order<S>( c, rnd, filtrations::Data<S>(), [&]( const VSet& s ) { return R.at( s ); }, true, false, "data-arbitrary" );
  order<S>( c, rnd, filtrations::Data<S,std::greater<D>>(), [&]( const VSet& s ) { return R.at( s ); }, false, false, "data-arbitrary-descending" );
  order<S>( c, none, filtrations::LowerStar<S>( values.begin(), values.end() ), mx, true, true, "lower-star" );
  order<S>( c, none, filtrations::UpperStar<S>( values.begin(), values.end() ), mn, false, true, "upper-star" );
  order<S>( c, none, filtrations::Data<S>(), []( const VSet& s ) { return double( s.size() ); }, true, true, "dimension" );

  filtrations::LowerStar<S> lower( values.begin(), values.end() ); filtrations::UpperStar<S> upper( values.begin(), values.end() );
  for( auto& s : S0 ) { c.eq( double( lower.maximumValue( toSimplex<S>( s ) ) ), mx( s ), "lower-star-value" ); c.eq( double( upper.minimumValue( toSimplex<S>( s ) ) ), mn( s ), "upper-star-value" ); }
}

} // namespace

SECTION( orders_double, 1200, 15000 ) { orders<Simplex<double,unsigned>>( c ); }
SECTION( orders_int, 800, 8000 ) { orders<Simplex<int,unsigned short>>( c ); }
SECTION( orders_float, 800, 8000 ) { orders<Simplex<float,int>>( c ); }
