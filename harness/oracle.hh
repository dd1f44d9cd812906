// Independent reference models and input generators. No library code here.
#ifndef VP_ORACLE_HH
#define VP_ORACLE_HH

#include "common.hh"

namespace vp
{

using VSet = std::vector<unsigned>;   // sorted ascending, unique

// A filtered complex: simplices in filtration order with their weights.
struct Cx
{
  std::vector<VSet>   s;
  std::vector<double> w;

  std::size_t size() const { return s.size(); }

  std::map<VSet, std::size_t> index() const
  {
    std::map<VSet, std::size_t> m;
    for( std::size_t i = 0; i < s.size(); i++ ) m[ s[i] ] = i;
    return m;
  }

  int dimension() const
  {
    int d = -1; for( auto& x : s ) d = std::max( d, int( x.size() ) - 1 ); return d;
  }

  std::string text( std::size_t max = 60 ) const
  {
    std::ostringstream o; o.precision( 6 );
    o << s.size() << " simplices: ";
    for( std::size_t i = 0; i < s.size() && i < max; i++ )
    {
      o << "{";
      for( std::size_t j = 0; j < s[i].size(); j++ ) o << ( j ? " " : "" ) << s[i][j];
      o << "}:" << w[i] << " ";
    }
    if( s.size() > max ) o << "...";
    return o.str();
  }

  std::uint64_t digest() const { return combine( dig( s ), dig( w ) ); }
};

inline std::vector<VSet> facesOf( const VSet& s )
{
  std::vector<VSet> r;
  if( s.size() < 2 ) return r;
  for( std::size_t i = 0; i < s.size(); i++ ) { VSet f = s; f.erase( f.begin() + static_cast<long>( i ) ); r.push_back( f ); }
  return r;
}

inline std::vector<VSet> subsetsOf( const VSet& s )   // all non-empty subsets
{
  std::vector<VSet> r;
  for( std::size_t m = 1; m < ( std::size_t( 1 ) << s.size() ); m++ )
  {
    VSet f; for( std::size_t i = 0; i < s.size(); i++ ) if( m >> i & 1 ) f.push_back( s[i] ); r.push_back( f );
  }
  return r;
}

inline std::set<VSet> closure( const std::vector<VSet>& gens )
{
  std::set<VSet> r; for( auto& g : gens ) for( auto& f : subsetsOf( g ) ) r.insert( f ); return r;
}

// Z/2 persistence -----------------------------------------------------

// Columns as sorted index vectors. Returns for every column its pivot or -1.
inline std::vector<long> reduceColumns( std::vector<std::vector<std::size_t>> cols )
{
  std::vector<long> low( cols.size(), -1 );
  std::map<std::size_t, std::size_t> owner;
  for( std::size_t j = 0; j < cols.size(); j++ )
  {
    std::set<std::size_t> col;
    for( auto i : cols[j] ) { auto r = col.insert( i ); if( !r.second ) col.erase( r.first ); }
    while( !col.empty() )
    {
      auto it = owner.find( *col.rbegin() );
      if( it == owner.end() ) break;
      for( auto i : cols[ it->second ] ) { auto r = col.insert( i ); if( !r.second ) col.erase( r.first ); }
    }
    cols[j].assign( col.begin(), col.end() );
    if( !col.empty() ) { low[j] = static_cast<long>( *col.rbegin() ); owner[ *col.rbegin() ] = j; }
  }
  return low;
}

constexpr std::size_t INF_INDEX = ~std::size_t( 0 );

struct Pairing
{
  std::vector<std::pair<std::size_t,std::size_t>> pairs;   // sorted, INF_INDEX if essential
};

inline std::vector<std::vector<std::size_t>> boundaryColumns( const Cx& K )
{
  auto idx = K.index();
  std::vector<std::vector<std::size_t>> cols( K.size() );
  for( std::size_t j = 0; j < K.size(); j++ )
  {
    for( auto& f : facesOf( K.s[j] ) ) cols[j].push_back( idx.at( f ) );
    std::sort( cols[j].begin(), cols[j].end() );
  }
  return cols;
}

inline Pairing persistence( const Cx& K, bool includeAll )
{
  auto low = reduceColumns( boundaryColumns( K ) );
  std::vector<char> killed( K.size(), 0 );
  Pairing P;
  for( std::size_t j = 0; j < K.size(); j++ ) if( low[j] >= 0 ) { killed[ static_cast<std::size_t>( low[j] ) ] = 1; P.pairs.push_back( { static_cast<std::size_t>( low[j] ), j } ); }
  int d = K.dimension();
  for( std::size_t j = 0; j < K.size(); j++ )
    if( low[j] < 0 && !killed[j] && ( includeAll || int( K.s[j].size() ) - 1 != d ) )
      P.pairs.push_back( { j, INF_INDEX } );
  std::sort( P.pairs.begin(), P.pairs.end() );
  return P;
}

constexpr double INF = std::numeric_limits<double>::infinity();

// Diagram of every dimension: sorted list of (birth, death)
using Dgm  = std::vector<std::pair<double,double>>;
using Dgms = std::map<int, Dgm>;

inline Dgms diagrams( const Cx& K, const Pairing& P )
{
  Dgms D;
  for( auto& p : P.pairs )
    D[ int( K.s[ p.first ].size() ) - 1 ].push_back( { K.w[ p.first ], p.second == INF_INDEX ? INF : K.w[ p.second ] } );
  for( auto& kv : D ) std::sort( kv.second.begin(), kv.second.end() );
  return D;
}

inline Dgms diagrams( const Cx& K, bool includeAll ) { return diagrams( K, persistence( K, includeAll ) ); }

// Betti numbers (all dimensions 0..dim), from ranks of the boundary maps.
inline std::vector<long> bettiNumbers( const std::set<VSet>& K )
{
  Cx c; std::vector<VSet> v( K.begin(), K.end() );
  std::stable_sort( v.begin(), v.end(), []( const VSet& a, const VSet& b ) { return a.size() < b.size(); } );
  c.s = v; c.w.assign( v.size(), 0 );
  auto low = reduceColumns( boundaryColumns( c ) );
  int d = c.dimension();
  std::vector<long> n( static_cast<std::size_t>( d + 1 ), 0 ), rank( static_cast<std::size_t>( d + 2 ), 0 ), b;
  for( std::size_t j = 0; j < c.size(); j++ ) { ++n[ c.s[j].size() - 1 ]; if( low[j] >= 0 ) ++rank[ c.s[j].size() - 1 ]; }
  for( int k = 0; k <= d; k++ ) b.push_back( n[ static_cast<std::size_t>( k ) ] - rank[ static_cast<std::size_t>( k ) ] - rank[ static_cast<std::size_t>( k + 1 ) ] );
  return b;
}

// Generators ----------------------------------------------------------

struct CxOptions
{
  int maxVertices = 9, maxDim = 4, maxGenerators = 14;
  int idMode = -1;            // 0 contiguous, 1 offset, 2 sparse, -1 random
  unsigned maxId = 60000;
  int weightMode = -1;        // 0 real, 1 small integers (ties), 2 all equal, 3 negative too, 4 vertex-based (lower star), -1 random
  bool allowEmpty = false;
};

inline std::vector<unsigned> vertexIds( Rng& r, std::size_t n, int mode, unsigned maxId )
{
  std::vector<unsigned> ids;
  if( mode == 0 ) for( unsigned i = 0; i < n; i++ ) ids.push_back( i );
  else if( mode == 1 ) { unsigned o = static_cast<unsigned>( r.range( 1, 200 ) ); for( unsigned i = 0; i < n; i++ ) ids.push_back( o + i ); }
  else { std::set<unsigned> s; while( s.size() < n ) s.insert( static_cast<unsigned>( r.below( maxId ) ) ); ids.assign( s.begin(), s.end() ); }
  return ids;
}

// Orders simplices such that weights are monotone and faces come first; ties
// are broken at random (a random linear extension) or by (dimension, lex).
inline Cx orderComplex( Rng& r, const std::map<VSet,double>& W, bool randomTies )
{
  Cx K;
  struct E { double w; std::size_t n; std::uint64_t p; const VSet* s; };
  std::vector<E> e;
  for( auto& kv : W ) e.push_back( { kv.second, kv.first.size(), r(), &kv.first } );
  if( !randomTies )
    std::sort( e.begin(), e.end(), []( const E& a, const E& b ) { return std::tie( a.w, a.n, *a.s ) < std::tie( b.w, b.n, *b.s ); } );
  else
  {
    // Kahn's algorithm with random priorities within equal weights
    std::map<VSet,std::size_t> missing; std::map<VSet,std::vector<VSet>> cof;
    std::map<VSet,std::uint64_t> prio; for( auto& x : e ) prio[ *x.s ] = x.p;
    std::set<std::pair<std::pair<double,std::uint64_t>,VSet>> ready;
    for( auto& kv : W )
    {
      auto f = facesOf( kv.first ); missing[ kv.first ] = f.size();
      for( auto& x : f ) cof[x].push_back( kv.first );
      if( f.empty() ) ready.insert( { { kv.second, prio[ kv.first ] }, kv.first } );
    }
    while( !ready.empty() )
    {
      auto x = *ready.begin(); ready.erase( ready.begin() );
      K.s.push_back( x.second ); K.w.push_back( x.first.first );
      for( auto& y : cof[ x.second ] ) if( --missing[y] == 0 ) ready.insert( { { W.at( y ), prio[y] }, y } );
    }
    return K;
  }
  for( auto& x : e ) { K.s.push_back( *x.s ); K.w.push_back( x.w ); }
  return K;
}

inline std::set<VSet> randomSimplices( Rng& r, const CxOptions& o )
{
  int shape = r.range( 0, 9 );
  std::size_t n = static_cast<std::size_t>( r.range( 1, o.maxVertices ) );
  int idMode = o.idMode >= 0 ? o.idMode : r.range( 0, 2 );
  auto ids = vertexIds( r, n, idMode, o.maxId );
  std::vector<VSet> gens;
  auto randomSubset = [&]( std::size_t k ) { auto v = ids; r.shuffle( v ); v.resize( std::min( k, v.size() ) ); std::sort( v.begin(), v.end() ); return v; };
  for( auto v : ids ) if( shape != 8 || r.chance( 0.7 ) ) gens.push_back( { v } );
  if( gens.empty() ) gens.push_back( { ids[0] } );
  if( shape <= 4 )
  {
    int g = r.range( 0, o.maxGenerators );
    for( int i = 0; i < g; i++ ) gens.push_back( randomSubset( static_cast<std::size_t>( r.range( 1, o.maxDim + 1 ) ) ) );
  }
  else if( shape == 5 ) // boundary of a simplex (sphere), possibly with extra pieces
  {
    auto s = randomSubset( static_cast<std::size_t>( r.range( 2, o.maxDim + 2 ) ) );
    for( auto& f : facesOf( s ) ) gens.push_back( f );
    if( r.chance( 0.4 ) ) gens.push_back( randomSubset( static_cast<std::size_t>( r.range( 1, 3 ) ) ) );
  }
  else if( shape == 6 ) // cycle
  {
    for( std::size_t i = 0; i + 1 < n; i++ ) gens.push_back( { ids[i], ids[i+1] } );
    if( n > 2 && r.chance( 0.8 ) ) gens.push_back( { ids[0], ids[n-1] } );
    for( int i = 0; i < r.range( 0, 3 ); i++ ) gens.push_back( randomSubset( 2 ) );
  }
  else if( shape == 7 ) // flag complex of a random graph
  {
    double p = r.real( 0.2, 0.95 );
    std::vector<std::vector<char>> A( n, std::vector<char>( n, 0 ) );
    for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = i + 1; j < n; j++ ) A[i][j] = A[j][i] = r.chance( p );
    for( std::size_t m = 1; m < ( std::size_t( 1 ) << std::min<std::size_t>( n, 12 ) ); m++ )
    {
      VSet s; bool ok = true;
      for( std::size_t i = 0; i < n && ok; i++ ) if( m >> i & 1 ) { for( std::size_t j = 0; j < i; j++ ) if( ( m >> j & 1 ) && !A[i][j] ) ok = false; s.push_back( ids[i] ); }
      if( ok && int( s.size() ) <= o.maxDim + 1 ) gens.push_back( s );
    }
  }
  else if( shape == 8 ) // disjoint pieces
  {
    for( std::size_t i = 0; i + 2 < n; i += 3 ) { VSet t { ids[i], ids[i+1], ids[i+2] }; if( r.chance( 0.5 ) && o.maxDim >= 2 ) gens.push_back( t ); else for( auto& f : facesOf( t ) ) gens.push_back( f ); }
  }
  else // wedge: cone over random pieces
  {
    int g = r.range( 1, std::max( 1, o.maxGenerators / 2 ) );
    for( int i = 0; i < g; i++ ) { auto s = randomSubset( static_cast<std::size_t>( r.range( 1, std::max( 1, o.maxDim ) ) ) ); if( !std::binary_search( s.begin(), s.end(), ids[0] ) ) s.insert( s.begin(), ids[0] ); std::sort( s.begin(), s.end() ); gens.push_back( s ); }
  }
  std::vector<VSet> g2; for( auto& g : gens ) { if( int( g.size() ) > o.maxDim + 1 ) g.resize( static_cast<std::size_t>( o.maxDim + 1 ) ); g2.push_back( g ); }
  return closure( g2 );
}

inline std::map<VSet,double> randomWeights( Rng& r, const std::set<VSet>& S, int mode )
{
  std::map<VSet,double> W;
  if( mode < 0 ) mode = r.range( 0, 4 );
  std::vector<VSet> v( S.begin(), S.end() );
  std::stable_sort( v.begin(), v.end(), []( const VSet& a, const VSet& b ) { return a.size() < b.size(); } );
  for( auto& s : v )
  {
    double x = 0;
    if( mode == 0 ) x = r.real( 0, 10 );
    else if( mode == 1 ) x = r.range( 0, 4 );
    else if( mode == 2 ) x = 1.0;
    else if( mode == 3 ) x = r.range( -6, 6 ) * 0.5;
    else x = s.size() == 1 ? double( r.range( 0, 6 ) ) : -1e9;
    for( auto& f : facesOf( s ) ) x = std::max( x, W.at( f ) );
    W[s] = x;
  }
  return W;
}

inline Cx randomComplex( Rng& r, const CxOptions& o = CxOptions() )
{
  if( o.allowEmpty && r.chance( 0.02 ) ) return Cx();
  auto S = randomSimplices( r, o );
  auto W = randomWeights( r, S, o.weightMode );
  return orderComplex( r, W, r.chance( 0.5 ) );
}

// Triangulated torus / sphere-like grids, for larger inputs
inline std::set<VSet> torusGrid( unsigned a, unsigned b )
{
  std::vector<VSet> g;
  auto id = [&]( unsigned x, unsigned y ) { return ( x % a ) * b + ( y % b ); };
  for( unsigned x = 0; x < a; x++ ) for( unsigned y = 0; y < b; y++ )
  {
    VSet t1 { id( x, y ), id( x + 1, y ), id( x + 1, y + 1 ) }, t2 { id( x, y ), id( x, y + 1 ), id( x + 1, y + 1 ) };
    std::sort( t1.begin(), t1.end() ); std::sort( t2.begin(), t2.end() ); g.push_back( t1 ); g.push_back( t2 );
  }
  return closure( g );
}

} // namespace vp

#endif
