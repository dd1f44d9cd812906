#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/PhiPersistence.hh>
#include <aleph/topology/BarycentricSubdivision.hh>

using namespace vp;

namespace
{

using S = aleph::topology::Simplex<double,unsigned>; using SC = aleph::topology::SimplicialComplex<S>; using Bits = std::vector<std::uint64_t>;

Bits operator^( Bits a, const Bits& b ) { for( std::size_t i = 0; i < a.size(); i++ ) a[i] ^= b[i]; return a; }
long top( const Bits& a, const std::vector<std::size_t>& order )   // position of the highest bit with respect to an order of the rows
{
  for( std::size_t i = order.size(); i-- > 0; ) if( a[ order[i] / 64 ] >> ( order[i] % 64 ) & 1 ) return static_cast<long>( i ); return -1;
}

struct Space
{
  // Echelon basis with respect to a row order
  std::vector<std::size_t> order; std::map<long,Bits> basis;
  bool add( Bits v ) { long t; while( ( t = top( v, order ) ) >= 0 ) { auto it = basis.find( t ); if( it == basis.end() ) { basis[t] = v; return true; } v = v ^ it->second; } return false; }
};

// Rank function of the persistent homology of the allowable chains:
// number of classes of dimension i born up to value a that live beyond value b
struct Reference
{
  const Cx& K; std::vector<char> ok; std::map<VSet,std::size_t> index; std::size_t words;
  Reference( const Cx& k, const std::vector<char>& a ) : K( k ), ok( a ), index( k.index() ), words( k.size() / 64 + 1 ) {}
  Bits boundary( std::size_t j ) const { Bits b( words ); for( auto& f : facesOf( K.s[j] ) ) { auto i = index.at( f ); b[ i / 64 ] ^= std::uint64_t( 1 ) << ( i % 64 ); } return b; }
  Bits unit( std::size_t j ) const { Bits b( words ); b[ j / 64 ] |= std::uint64_t( 1 ) << ( j % 64 ); return b; }

  // Pairs (chain, boundary), column reduced with the given row order
  std::vector<std::pair<Bits,Bits>> reduce( std::size_t dim, double a, const std::vector<std::size_t>& order ) const
  {
    std::map<long,std::pair<Bits,Bits>> piv; std::vector<std::pair<Bits,Bits>> all;
    for( std::size_t j = 0; j < K.size(); j++ ) if( K.s[j].size() == dim + 1 && ok[j] && K.w[j] <= a )
    {
      Bits ch = unit( j ), bd = boundary( j ); long t;
      while( ( t = top( bd, order ) ) >= 0 ) { auto it = piv.find( t ); if( it == piv.end() ) { piv[t] = { ch, bd }; break; } ch = ch ^ it->second.first; bd = bd ^ it->second.second; }
      if( t < 0 ) all.push_back( { ch, bd } );
    }
    for( auto& kv : piv ) all.push_back( kv.second );
    return all;
  }

  long rank( std::size_t dim, double a, double b ) const
  {
    std::vector<std::size_t> order; for( std::size_t j = 0; j < K.size(); j++ ) if( ok[j] ) order.push_back( j ); std::size_t proper = order.size(); for( std::size_t j = 0; j < K.size(); j++ ) if( !ok[j] ) order.push_back( j );
    Space Z, B; Z.order = B.order = order; long z = 0, w = 0, sum = 0;
    for( auto& p : reduce( dim, a, order ) ) if( top( p.second, order ) < 0 ) z += Z.add( p.first );
    for( auto& p : reduce( dim + 1, b, order ) ) { long t = top( p.second, order ); if( t >= 0 && t < long( proper ) ) w += B.add( p.second ); }
    Space U = B; sum = w; for( auto& kv : Z.basis ) sum += U.add( kv.second );
    return sum - w;   // dim Z - dim( Z cap B )
  }
};

std::map<std::size_t,Dgm> collect( const std::vector<aleph::PersistenceDiagram<double>>& D )
{
  std::map<std::size_t,Dgm> m; for( auto& d : D ) { auto& x = m[ d.dimension() ]; for( auto& p : toDgm( d ) ) if( p.first != p.second ) x.push_back( p ); std::sort( x.begin(), x.end() ); if( x.empty() ) m.erase( d.dimension() ); } return m;
}

void verify( Ctx& c, const Cx& K, const std::vector<char>& ok, const std::map<std::size_t,Dgm>& D, const std::string& what )
{
  Reference R( K, ok ); std::set<double> lv( K.w.begin(), K.w.end() ); std::vector<double> levels( lv.begin(), lv.end() ); std::size_t d = std::size_t( std::max( 0, K.dimension() ) );
  if( levels.size() > 7 ) { std::vector<double> l; for( std::size_t i = 0; i < 7; i++ ) l.push_back( levels[ i * ( levels.size() - 1 ) / 6 ] ); levels = l; }
  for( std::size_t i = 0; i <= d; i++ ) for( std::size_t x = 0; x < levels.size(); x++ ) for( std::size_t y = x; y < levels.size(); y++ )
  {
    long have = 0; auto it = D.find( i ); if( it != D.end() ) for( auto& p : it->second ) have += p.first <= levels[x] && p.second > levels[y];
    c.eq( have, R.rank( i, levels[x], levels[y] ), "rank", what + " dimension " + std::to_string( i ) + " from " + strx( levels[x] ) + " to " + strx( levels[y] ) );
  }
  for( auto& kv : D ) c.expect( kv.first <= d, "dimension", what );
}

std::string show( const std::vector<SC>& X ) { std::string r; for( std::size_t i = 0; i < X.size(); i++ ) { r += " X" + std::to_string( i ) + "="; for( auto&& s : X[i] ) r += str( vset( s ) ); } return r; }

// Nested strata X_0 <= ... <= X_d = K
std::vector<SC> strata( Ctx& c, const Cx& K, bool gm, std::vector<std::set<VSet>>& sets )
{
  int d = K.dimension(); sets.assign( std::size_t( d + 1 ), {} ); std::vector<SC> X; std::set<VSet> cur; double p = c.rng.pick( std::vector<double> { 0.0, 0.15, 0.4, 0.8 } ); bool proper = c.rng.chance( 0.6 );
  for( int i = 0; i < d; i++ )
  {
    if( !( gm && i == d - 1 ) ) for( auto& s : K.s ) if( ( !proper || int( s.size() ) - 1 <= i ) && c.rng.chance( p / ( 1.0 + double( s.size() ) / 2 ) ) ) for( auto& f : subsetsOf( s ) ) cur.insert( f );
    sets[ std::size_t( i ) ] = cur;
  }
  for( auto& s : K.s ) sets[ std::size_t( d ) ].insert( s );
  auto W = K.index();
  for( auto& s : sets ) { Cx x; std::vector<std::pair<std::size_t,VSet>> o; for( auto& v : s ) o.push_back( { W.at( v ), v } ); std::sort( o.begin(), o.end() ); for( auto& q : o ) { x.s.push_back( q.second ); x.w.push_back( K.w[ q.first ] ); } X.push_back( toComplex<S>( x ) ); }
  return X;
}

template <class P> void run( Ctx& c, const P& p, const std::vector<int>& values, bool gm )
{
  CxOptions o; o.maxVertices = 7; o.maxDim = 3; o.maxGenerators = 7; auto K = randomComplex( c.rng, o ); int d = K.dimension(); if( d < 1 || K.size() > 90 || ( gm && d < 2 ) ) throw Skip();
  std::vector<std::set<VSet>> sets; auto X = strata( c, K, gm, sets ); auto L = toComplex<S>( K );
  auto perversity = [&]( int k ) { int i = gm ? k - 2 : k - 1; return i < int( values.size() ) ? values[ std::size_t( i ) ] : 0; };
  std::vector<char> ok; std::size_t bad = 0;
  for( auto& s : K.s )
  {
    bool a = true; for( int k = gm ? 2 : 1; k <= d; k++ )
    {
      if( perversity( k ) >= k ) continue; int dim = -1; for( auto& f : subsetsOf( s ) ) if( sets[ std::size_t( d - k ) ].count( f ) ) dim = std::max( dim, int( f.size() ) - 1 );
      if( dim >= 0 && dim > int( s.size() ) - 1 - k + perversity( k ) ) a = false;
    }
    ok.push_back( a ); bad += !a;
  }
  c.desc << "perversity " << str( values ) << " " << K.text() << show( X ); if( bad && bad < K.size() ) c.nontrivial( combine( K.digest(), combine( dig( values ), dig( std::vector<int>( ok.begin(), ok.end() ) ) ) ) );
  auto A = collect( aleph::calculateIntersectionHomology( L, X, p, false ) ), B = collect( aleph::calculateIntersectionHomology( L, X, p, true ) ), C = collect( aleph::calculateIntersectionHomology( L, X, p ) );
  c.expect( A == B, "dualization" ); c.expect( B == C, "default" ); verify( c, K, ok, A, "primal" ); if( A != B ) verify( c, K, ok, B, "dual" );
  c.expect( fromComplex( L ).s == K.s && fromComplex( L ).w == K.w, "input-unchanged" );
}

} // namespace

SECTION( intersection_homology, 2500, 30000 )
{
  std::vector<int> raw, v; int n = c.rng.range( 0, 4 ); for( int i = 0; i < n; i++ ) { raw.push_back( c.rng.range( -3, 4 ) ); v.push_back( std::max( -1, std::min( i, raw.back() ) ) ); }
  run( c, aleph::Perversity( raw.begin(), raw.end() ), v, false );
}

SECTION( intersection_homology_gm, 1500, 20000 )
{
  std::vector<int> v; int n = c.rng.range( 0, 3 ), x = 0; for( int i = 0; i < n; i++ ) { v.push_back( x ); x += c.rng.range( 0, 1 ); }
  run( c, aleph::PerversityGM( v.begin(), v.end() ), v, true );
}

SECTION( unrestricted, 800, 8000 )
{
  CxOptions o; o.maxVertices = 9; o.maxDim = 3; auto K = randomComplex( c.rng, o ); if( c.rng.chance( 0.2 ) ) for( auto& w : K.w ) w = -w; int d = K.dimension(); if( d < 1 ) throw Skip(); auto L = toComplex<S>( K ); c.desc << K.text(); c.nontrivial( K.digest() );
  std::vector<SC> X( std::size_t( d + 1 ) ); X.back() = L; std::vector<int> v; for( int i = 0; i < d; i++ ) v.push_back( c.rng.range( -1, i ) );
  auto E = diagrams( K, true ); std::map<std::size_t,Dgm> e; for( auto& kv : E ) { Dgm x; for( auto& p : kv.second ) if( p.first != p.second ) x.push_back( p ); if( !x.empty() ) e[ std::size_t( kv.first ) ] = x; }
  for( bool dual : { false, true } ) c.expect( collect( aleph::calculateIntersectionHomology( L, X, aleph::Perversity( v.begin(), v.end() ), dual ) ) == e, "unrestricted", dual ? "dual" : "primal" );
}

SECTION( perversity_values, 2000, 20000 )
{
  int n = c.rng.range( 0, 8 ); std::vector<int> raw, e; for( int i = 0; i < n; i++ ) { raw.push_back( c.rng.range( -5, 9 ) ); e.push_back( std::max( -1, std::min( i, raw.back() ) ) ); } c.desc << str( raw ); c.nontrivial( dig( raw ) );
  aleph::Perversity p( raw.begin(), raw.end() ); c.expect( std::vector<int>( p.begin(), p.end() ) == e, "clamp" ); for( int k = 1; k <= n; k++ ) c.eq( p( std::size_t( k ) ), e[ std::size_t( k - 1 ) ], "value" );
  c.eq( p( std::size_t( n + 1 ) ), 0, "value-invalid" ); c.eq( p( std::size_t( n + 7 ) ), 0, "value-invalid" ); c.eq( p( 0 ), 0, "value-zero" );
  std::ostringstream o, x; o << p; x << "["; for( int i = 0; i < n; i++ ) x << ( i ? "," : "" ) << e[ std::size_t( i ) ]; x << "]"; c.eq( o.str(), x.str(), "print" );

  std::vector<int> g, ge; for( int i = 0; i < n; i++ ) { g.push_back( c.rng.range( 0, 9 ) ); } aleph::PerversityGM q( g.begin(), g.end() ); std::vector<long> got( q.begin(), q.end() ); c.eq( got.size(), g.size(), "gm-size" );
  if( !got.empty() ) c.eq( got[0], 0L, "gm-first" );
  for( std::size_t i = 1; i < got.size(); i++ ) { c.expect( got[i] == got[i-1] || got[i] == got[i-1] + 1, "gm-growth" ); if( g[i] == got[i-1] || g[i] == got[i-1] + 1 ) c.eq( got[i], long( g[i] ), "gm-kept" ); }
  for( int k = 0; k < n; k++ ) c.eq( long( q( std::size_t( k + 2 ) ) ), got[ std::size_t( k ) ], "gm-value" ); c.eq( q( std::size_t( n + 2 ) ), 0u, "gm-invalid" ); c.eq( q( 0 ), 0u, "gm-invalid-small" ); c.eq( q( 1 ), 0u, "gm-invalid-small" );
}

SECTION( partition_order, 1500, 15000 )
{
  auto K = randomComplex( c.rng ); auto L = toComplex<S>( K ); std::set<VSet> proper; for( auto& s : K.s ) if( c.rng.chance( 0.5 ) ) proper.insert( s ); c.desc << K.text(); c.nontrivial( combine( K.digest(), proper.size() ) );
  auto R = aleph::partition( L, [&]( const S& s ) { return proper.count( vset( s ) ) > 0; } ); std::vector<VSet> e; for( auto& s : K.s ) if( proper.count( s ) ) e.push_back( s ); c.eq( R.second, e.size(), "proper-count" ); for( auto& s : K.s ) if( !proper.count( s ) ) e.push_back( s );
  auto P = fromComplex( R.first ); c.expect( P.s == e, "partition-order" ); auto W = weightsOf( L ); bool same = true; for( std::size_t i = 0; i < P.size(); i++ ) same = same && W[ P.s[i] ] == P.w[i]; c.expect( same, "partition-data" );
}

SECTION( gm_requirements, 300, 3000 )
{
  CxOptions o; o.maxVertices = 6; o.maxDim = 3; auto K = randomComplex( c.rng, o ); int d = K.dimension(); auto L = toComplex<S>( K ); c.desc << K.text(); c.nontrivial( K.digest() );
  c.throws( [&] { aleph::calculateIntersectionHomology( L, std::vector<SC> { L, L }, aleph::PerversityGM( { 0 } ) ); }, "gm-too-few" );
  if( d >= 1 )
  {
    Cx v; v.s = { { K.s[0] } }; v.w = { K.w[0] }; auto P = toComplex<S>( v ); c.throws( [&] { aleph::calculateIntersectionHomology( L, std::vector<SC> { SC(), P, L }, aleph::PerversityGM( { 0 } ) ); }, "gm-unequal" );
    c.throws( [&] { aleph::calculateIntersectionHomology( L, std::vector<SC>( std::size_t( d + 1 ), P ), aleph::Perversity( { 0 } ) ); }, "dimension-mismatch" );
  }
}
