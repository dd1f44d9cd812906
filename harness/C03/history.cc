#include "bridge.hh"

#include <aleph/topology/filtrations/Data.hh>

using namespace vp;
using namespace aleph::topology;

namespace
{

struct Model
{
  std::vector<std::pair<VSet,double>> v;

  long find( const VSet& s ) const { for( std::size_t i = 0; i < v.size(); i++ ) if( v[i].first == s ) return long( i ); return -1; }
  bool push( const VSet& s, double w ) { if( find( s ) >= 0 ) return false; v.push_back( { s, w } ); return true; }
  std::set<VSet> set() const { std::set<VSet> r; for( auto& x : v ) r.insert( x.first ); return r; }
  bool closed() const { auto S = set(); for( auto& s : S ) for( auto& f : facesOf( s ) ) if( !S.count( f ) ) return false; return true; }
};

// Lexicographical order as documented: by vertices from largest to smallest
bool lexLess( const VSet& a, const VSet& b ) { return std::lexicographical_compare( a.rbegin(), a.rend(), b.rbegin(), b.rend() ); }

template <class S> void compare( Ctx& c, const SimplicialComplex<S>& A, const Model& E, const std::vector<VSet>& probes, const std::string& what )
{
  using V = typename S::VertexType;
  auto key = [&]( const char* k ) { return std::string( k ); };
  c.eq( A.size(), E.v.size(), key( "size" ), what ); c.eq( A.empty(), E.v.empty(), key( "empty" ), what );
  if( A.size() != E.v.size() ) return;

  // Filtration order, random access, positions
  std::size_t i = 0; bool order = true, access = true, index = true, lookup = true;
  for( auto&& s : A )
  {
    order = order && vset( s ) == E.v[i].first && static_cast<double>( s.data() ) == E.v[i].second;
    access = access && vset( A[i] ) == E.v[i].first && vset( A.at( i ) ) == E.v[i].first && A.at( i ).data() == s.data();
    index = index && A.index( S( s, 0 ) ) == i;
    auto it = A.find( S( s, 17 ) );
    lookup = lookup && A.contains( s ) && it != A.end() && vset( *it ) == E.v[i].first && static_cast<double>( it->data() ) == E.v[i].second && std::distance( A.begin(), it ) == long( i );
    ++i;
  }
  c.expect( order, "order", what ); c.expect( access, "access", what ); c.expect( index, "index", what ); c.expect( lookup, "lookup", what );

  SimplicialComplex<S> B; if( A.size() <= 30 ) B = A;
  for( auto& p : probes ) if( E.find( p ) < 0 )
  {
    auto s = toSimplex<S>( p );
    c.expect( !A.contains( s ) && A.find( s ) == A.end(), "absent-found", what );
    c.throws( [&] { (void) A.index( s ); }, "absent-index", what );
    c.expect( B.find( s ) == B.end(), "absent-found-mutable", what );
  }
  c.throws( [&] { (void) A.at( E.v.size() ); }, "at-range", what );

  // Dimension
  if( E.v.empty() ) c.throws( [&] { (void) A.dimension(); }, "empty-dimension", what );
  else { std::size_t d = 0; for( auto& x : E.v ) d = std::max( d, x.first.size() - 1 ); c.eq( A.dimension(), d, "dimension", what ); }

  // Dimension ranges
  std::map<std::size_t, std::map<VSet,double>> byDim; for( auto& x : E.v ) byDim[ x.first.size() - 1 ].insert( x );
  for( std::size_t d = 0; d < 6; d++ )
  {
    auto r = A.range( d ); std::map<VSet,double> m; std::size_t n = 0;
    for( auto it = r.first; it != r.second; ++it ) { m[ vset( *it ) ] = static_cast<double>( it->data() ); ++n; }
    c.expect( m == byDim[d] && n == byDim[d].size(), "range", what + " dimension " + std::to_string( d ) );
  }
  {
    std::size_t lo = c.rng.below( 3 ), hi = lo + c.rng.below( 3 ), n = 0, e = 0;
    auto r = A.range( [&]( std::size_t d ) { return d >= lo; }, [&]( std::size_t d ) { return d <= hi; } );
    bool ok = true; for( auto it = r.first; it != r.second; ++it ) { ++n; ok = ok && it->dimension() >= lo && it->dimension() <= hi; }
    for( std::size_t d = lo; d <= hi; d++ ) e += byDim[d].size();
    c.expect( ok && n == e, "range-predicates", what );
  }

  // Orders by dimension and by vertices
  {
    std::size_t n = 0, last = 0; bool ok = true; std::set<VSet> S0;
    for( auto it = A.begin_dimension(); it != A.end_dimension(); ++it ) { ok = ok && it->dimension() >= last; last = it->dimension(); ++n; S0.insert( vset( *it ) ); }
    c.expect( ok && n == E.v.size() && S0 == E.set(), "dimension-order", what );
    VSet prev; bool first = true; n = 0; ok = true;
    for( auto it = A.begin_lexicographical(); it != A.end_lexicographical(); ++it ) { auto v = vset( *it ); ok = ok && ( first || lexLess( prev, v ) ); prev = v; first = false; ++n; }
    c.expect( ok && n == E.v.size(), "lexicographical-order", what );
  }

  // The iterators of a complex that may be changed traverse the same sequences
  if( c.rng.chance( 0.1 ) )
  {
    auto M = A; const auto& C = M; std::vector<VSet> x, y;
    for( auto it = M.begin(); it != M.end(); ++it ) x.push_back( vset( *it ) );
    for( auto it = C.begin(); it != C.end(); ++it ) y.push_back( vset( *it ) );
    for( auto it = M.begin_dimension(); it != M.end_dimension(); ++it ) x.push_back( vset( *it ) );
    for( auto it = C.begin_dimension(); it != C.end_dimension(); ++it ) y.push_back( vset( *it ) );
    for( auto it = M.begin_lexicographical(); it != M.end_lexicographical(); ++it ) x.push_back( vset( *it ) );
    for( auto it = C.begin_lexicographical(); it != C.end_lexicographical(); ++it ) y.push_back( vset( *it ) );
    c.expect( x == y, "mutable-iterators", what );
  }

  // Vertices, in ascending order
  {
    std::set<unsigned> V0; for( auto& x : E.v ) V0.insert( x.first.begin(), x.first.end() );
    std::vector<V> vs; A.vertices( std::back_inserter( vs ) );
    std::vector<V> e( V0.begin(), V0.end() );
    c.expectf( vs == e, "vertices", [&]( std::ostream& o ) { o << what << " actual " << str( vs ) << " expected " << str( e ); } );
  }
}

template <class S> void history( Ctx& c, unsigned maxId )
{
  using D = typename S::DataType;
  auto ids = vertexIds( c.rng, static_cast<std::size_t>( c.rng.range( 2, 8 ) ), c.rng.range( 0, 2 ), maxId );
  auto subset = [&]( int maxSize ) { auto v = ids; c.rng.shuffle( v ); v.resize( std::min<std::size_t>( v.size(), static_cast<std::size_t>( c.rng.range( 1, maxSize ) ) ) ); std::sort( v.begin(), v.end() ); return v; };
  auto weight = [&] { return double( c.rng.range( 0, 20 ) ); };

  std::vector<SimplicialComplex<S>> A( 1 ); std::vector<Model> E( 1 );
  int steps = c.rng.range( 3, c.thorough ? 60 : 30 ); std::uint64_t h = dig( ids );
  c.desc << "ids " << str( ids ) << ": ";
  bool copied = false;
  for( int step = 0; step < steps; step++ )
  {
    std::size_t m = c.rng.below( A.size() ); auto& K = A[m]; auto& L = E[m];
    int op = c.rng.range( 0, 19 ); std::string name; h = combine( h, static_cast<std::uint64_t>( op ) );
    if( op <= 4 ) { auto s = subset( 4 ); double w = weight(); K.push_back( toSimplex<S>( s, w ) ); L.push( s, w ); name = "push_back" + str( s ); }
    else if( op <= 6 )
    {
      std::vector<S> v; int n = c.rng.range( 0, 5 ); name = "insert";
      for( int i = 0; i < n; i++ ) { auto s = subset( 4 ); double w = weight(); v.push_back( toSimplex<S>( s, w ) ); L.push( s, w ); name += str( s ); }
      K.insert( v.begin(), v.end() );
    }
    else if( op <= 8 )
    {
      // Missing faces: existing order is kept, exactly the missing faces are
      // appended, each with the data of one of its cofaces
      auto before = L; auto want = closure( [&] { std::vector<VSet> g; for( auto& x : L.v ) g.push_back( x.first ); return g; }() );
      K.createMissingFaces(); name = "createMissingFaces";
      auto now = fromComplex( K ); bool prefix = now.size() >= before.v.size(), data = true; std::map<VSet,double> W = weightsOf( K );
      for( std::size_t i = 0; prefix && i < before.v.size(); i++ ) prefix = now.s[i] == before.v[i].first && now.w[i] == before.v[i].second;
      std::set<VSet> have( now.s.begin(), now.s.end() );
      c.expect( prefix, "faces-order", name ); c.expect( have == want && now.size() == want.size(), "faces-set", name );
      for( std::size_t i = before.v.size(); i < now.size(); i++ ) { bool ok = false; for( auto& x : W ) if( x.first.size() == now.s[i].size() + 1 && x.second == now.w[i] && std::includes( x.first.begin(), x.first.end(), now.s[i].begin(), now.s[i].end() ) ) ok = true; data = data && ok; }
      c.expect( data, "faces-data", name );
      L.v.clear(); for( std::size_t i = 0; i < now.size(); i++ ) L.v.push_back( { now.s[i], now.w[i] } );
    }
    else if( op == 9 && !L.v.empty() && L.closed() )
    {
      auto s = c.rng.chance( 0.8 ) ? L.v[ c.rng.below( L.v.size() ) ].first : subset( 4 );
      if( c.rng.chance( 0.3 ) && K.contains( toSimplex<S>( s ) ) ) K.remove( *K.find( toSimplex<S>( s ) ) ); else K.remove( toSimplex<S>( s, 99 ) );
      name = "remove" + str( s );
      std::vector<std::pair<VSet,double>> r; bool present = L.find( s ) >= 0;
      for( auto& x : L.v ) if( !present || !std::includes( x.first.begin(), x.first.end(), s.begin(), s.end() ) ) r.push_back( x );
      L.v = r;
    }
    else if( op == 10 )
    {
      auto s = !L.v.empty() && c.rng.chance( 0.8 ) ? L.v[ c.rng.below( L.v.size() ) ].first : subset( 4 );
      K.remove_without_validation( toSimplex<S>( s, 99 ) ); name = "remove_without_validation" + str( s );
      long i = L.find( s ); if( i >= 0 ) L.v.erase( L.v.begin() + i );
    }
    else if( op == 11 && !L.v.empty() )
    {
      std::size_t i = c.rng.below( L.v.size() ); auto s = c.rng.chance( 0.6 ) ? L.v[i].first : subset( 4 ); double w = weight();
      bool free = L.find( s ) < 0 || L.find( s ) == long( i );
      auto it = K.begin(); std::advance( it, i );
      bool done = K.replace( it, toSimplex<S>( s, w ) ); name = "replace" + str( s );
      c.eq( done, free, "replace-result", name ); if( free ) L.v[i] = { s, w };
    }
    else if( op == 12 )
    {
      K.sort( filtrations::Data<S>() ); name = "sort(data)";
      std::sort( L.v.begin(), L.v.end(), []( const std::pair<VSet,double>& a, const std::pair<VSet,double>& b ) { if( a.second != b.second ) return a.second < b.second; if( a.first.size() != b.first.size() ) return a.first.size() < b.first.size(); return lexLess( a.first, b.first ); } );
    }
    else if( op == 13 )
    {
      K.sort(); name = "sort";
      std::sort( L.v.begin(), L.v.end(), []( const std::pair<VSet,double>& a, const std::pair<VSet,double>& b ) { return lexLess( a.first, b.first ); } );
    }
    else if( op == 14 && L.closed() )
    {
      bool max = c.rng.chance( 0.6 ), skip = c.rng.chance( 0.4 ); K.recalculateWeights( max, skip ); name = "recalculateWeights";
      std::map<VSet,double> W; for( auto& x : L.v ) W[ x.first ] = x.second;
      std::vector<VSet> v; for( auto& x : L.v ) v.push_back( x.first );
      std::stable_sort( v.begin(), v.end(), []( const VSet& a, const VSet& b ) { return a.size() < b.size(); } );
      for( auto& s : v ) if( s.size() > ( skip ? 2u : 1u ) ) { double w = max ? -INF : INF; for( auto& f : facesOf( s ) ) w = max ? std::max( w, W[f] ) : std::min( w, W[f] ); W[s] = w; }
      for( auto& x : L.v ) x.second = W[ x.first ];
    }
    else if( op == 15 && L.closed() && ids.back() < 300 )
    {
      std::vector<D> w( ids.back() + 1 ); for( auto& x : w ) x = static_cast<D>( c.rng.range( -9, 9 ) );
      K.recalculateWeights( w.begin(), w.end() ); name = "recalculateWeights(range)";
      for( auto& x : L.v ) { double y = -INF; for( auto v : x.first ) y = std::max( y, double( w[v] ) ); x.second = y; }
    }
    else if( op == 16 && !L.v.empty() )
    {
      std::vector<std::size_t> p( L.v.size() ); for( std::size_t i = 0; i < p.size(); i++ ) p[i] = i; c.rng.shuffle( p );
      std::vector<std::reference_wrapper<const S>> view; auto old = L; for( std::size_t i = 0; i < p.size(); i++ ) { view.push_back( std::cref( K[ p[i] ] ) ); L.v[i] = old.v[ p[i] ]; }
      K.rearrange( view.begin() ); name = "rearrange";
    }
    else if( op == 17 ) { if( A.size() < 3 ) { auto X = A[m]; A.push_back( X ); auto Y = E[m]; E.push_back( Y ); } else { std::size_t q = c.rng.below( 3 ); A[q] = A[m]; E[q] = E[m]; } name = "copy"; copied = true; }
    else if( op == 18 && c.rng.chance( 0.2 ) ) { K.clear(); L.v.clear(); name = "clear"; }
    else continue;
    c.desc << name << "; ";
    std::vector<VSet> probes { subset( 4 ), subset( 2 ) };
    for( std::size_t i = 0; i < A.size(); i++ ) compare( c, A[i], E[i], probes, name );
  }
  for( std::size_t i = 0; i < A.size(); i++ ) for( std::size_t j = 0; j < A.size(); j++ )
  {
    bool e = E[i].v.size() == E[j].v.size(); for( std::size_t k = 0; e && k < E[i].v.size(); k++ ) e = E[i].v[k].first == E[j].v[k].first;
    c.eq( A[i] == A[j], e, "equality" ); c.eq( A[i] != A[j], !e, "inequality" );
  }
  (void) copied; c.nontrivial( h );
}

} // namespace

SECTION( history_double, 3000, 40000 ) { history<Simplex<double,unsigned>>( c, 1000000 ); }
SECTION( history_float, 1500, 15000 ) { history<Simplex<float,unsigned short>>( c, 60000 ); }
SECTION( history_int, 1000, 15000 ) { history<Simplex<int,int>>( c, 1000000 ); }

// Construction from ranges and initializer lists, repeated simplices, streams
SECTION( construction, 1500, 15000 )
{
  using S = Simplex<double,unsigned>;
  CxOptions o; o.allowEmpty = true; auto K = randomComplex( c.rng, o ); c.desc << K.text(); if( K.size() > 2 ) c.nontrivial( K.digest() );
  std::vector<S> v; Model E;
  for( std::size_t i = 0; i < K.size(); i++ ) { v.push_back( toSimplex<S>( K.s[i], K.w[i] ) ); if( c.rng.chance( 0.2 ) ) v.push_back( toSimplex<S>( K.s[ c.rng.below( i + 1 ) ], 50 ) ); }
  for( auto& s : v ) E.push( vset( s ), s.data() );
  SimplicialComplex<S> A( v.begin(), v.end() ), B; for( auto& s : v ) B.push_back( s );
  compare( c, A, E, { { 7, 9, 11, 13, 17, 19 } }, "range constructor" ); compare( c, B, E, {}, "push_back" );
  auto C = A; compare( c, C, E, {}, "copy" ); C.clear(); compare( c, C, Model(), {}, "clear" ); compare( c, A, E, {}, "copy source" );
  auto F = std::move( B ); compare( c, F, E, {}, "move" );
  c.expect( A == F && !( A != F ), "equality" );
  if( K.size() >= 2 ) { SimplicialComplex<S> I = { v[0], v.back(), v[0] }; Model M; M.push( vset( v[0] ), v[0].data() ); M.push( vset( v.back() ), v.back().data() ); compare( c, I, M, {}, "initializer list" ); }
  std::ostringstream out; out << A; c.expect( K.size() == 0 || !out.str().empty(), "stream" );
}
