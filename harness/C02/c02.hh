#include "bridge.hh"

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

namespace c02
{

using namespace vp;
using namespace aleph::topology;

struct Model
{
  std::vector<std::set<std::size_t>> col;
  std::vector<std::size_t> dim;
  bool dual = false;

  bool operator==( const Model& o ) const { return col == o.col && dim == o.dim && dual == o.dual; }

  Model dualize() const
  {
    Model D; std::size_t n = col.size(); D.col.resize( n ); D.dim.resize( n ); D.dual = !dual;
    std::size_t d = 0; for( auto x : dim ) d = std::max( d, x );
    for( std::size_t j = 0; j < n; j++ ) { D.dim[ n - 1 - j ] = d - dim[j]; for( auto i : col[j] ) D.col[ n - 1 - i ].insert( n - 1 - j ); }
    return D;
  }
};

template <class M> void compare( Ctx& c, const M& A, const Model& E, const std::string& key, const std::string& what )
{
  using Index = typename M::Index;
  c.eq( static_cast<std::size_t>( A.getNumColumns() ), E.col.size(), key + "-columns", what );
  if( static_cast<std::size_t>( A.getNumColumns() ) != E.col.size() ) return;
  std::size_t d = 0;
  for( std::size_t j = 0; j < E.col.size(); j++ )
  {
    auto col = A.getColumn( static_cast<Index>( j ) );
    std::multiset<std::size_t> a; for( auto i : col ) a.insert( static_cast<std::size_t>( i ) );
    std::multiset<std::size_t> e( E.col[j].begin(), E.col[j].end() );
    c.expectf( a == e, key + "-column", [&]( std::ostream& o ) { o << what << " column " << j << " actual " << str( std::vector<std::size_t>( a.begin(), a.end() ) ) << " expected " << str( E.col[j] ); } );
    auto low = A.getMaximumIndex( static_cast<Index>( j ) );
    c.expect( low.second == !e.empty() && ( e.empty() || static_cast<std::size_t>( low.first ) == *e.rbegin() ), key + "-lowest", what );
    c.eq( static_cast<std::size_t>( A.getDimension( static_cast<Index>( j ) ) ), E.dim[j], key + "-column-dimension", what );
    d = std::max( d, E.dim[j] );
  }
  c.eq( static_cast<std::size_t>( A.getDimension() ), d, key + "-dimension", what );
  c.eq( A.isDualized(), E.dual, key + "-dualized", what );
}

// Arbitrary histories of operations on several matrices
template <class Rep> void history( Ctx& c )
{
  using M = BoundaryMatrix<Rep>; using Index = typename M::Index;
  bool wide = c.k % 60 == 0; std::size_t n = static_cast<std::size_t>( c.rng.range( 1, wide ? 400 : c.k % 5 == 0 ? 40 : 12 ) );
  std::vector<M> A( 1 ); std::vector<Model> E( 1 );
  A[0].setNumColumns( static_cast<Index>( n ) ); E[0].col.resize( n ); E[0].dim.assign( n, 0 );
  int steps = c.rng.range( 1, wide ? 20 : 40 ); std::uint64_t h = n;
  c.desc << n << " columns: ";
  for( int s = 0; s < steps; s++ )
  {
    std::size_t m = c.rng.below( A.size() ), a = c.rng.below( n ), b = c.rng.below( n );
    int op = c.rng.range( 0, 9 ); h = combine( combine( combine( h, static_cast<std::uint64_t>( op ) ), a ), b );
    std::string name;
    if( op <= 2 )
    {
      std::set<std::size_t> S; int k = c.rng.range( 0, int( std::min<std::size_t>( n, wide ? 300 : 8 ) ) ); for( int i = 0; i < k; i++ ) S.insert( c.rng.below( n ) );
      std::vector<Index> v; for( auto x : S ) v.push_back( static_cast<Index>( x ) ); c.rng.shuffle( v );
      A[m].setColumn( static_cast<Index>( a ), v.begin(), v.end() ); E[m].col[a] = S; E[m].dim[a] = S.empty() ? 0 : S.size() - 1; name = "setColumn";
      h = combine( h, dig( S ) );
    }
    else if( op <= 5 )
    {
      A[m].addColumns( static_cast<Index>( a ), static_cast<Index>( b ) ); name = "addColumns";
      std::set<std::size_t> r; std::set_symmetric_difference( E[m].col[a].begin(), E[m].col[a].end(), E[m].col[b].begin(), E[m].col[b].end(), std::inserter( r, r.end() ) ); E[m].col[b] = r;
    }
    else if( op == 6 ) { A[m].clearColumn( static_cast<Index>( a ) ); E[m].col[a].clear(); name = "clearColumn"; }
    else if( op == 7 ) { std::size_t d = c.rng.below( 6 ); A[m].setDimension( static_cast<Index>( a ), static_cast<Index>( d ) ); E[m].dim[a] = d; name = "setDimension"; }
    else if( op == 8 ) { auto D = A[m].dualize(); auto F = E[m].dualize(); if( A.size() < 4 ) { A.push_back( D ); E.push_back( F ); } else { A[0] = D; E[0] = F; } name = "dualize"; }
    else { if( A.size() < 4 ) { auto X = A[m]; A.push_back( X ); E.push_back( E[m] ); } else { std::size_t q = c.rng.below( A.size() ); A[q] = A[m]; E[q] = E[m]; } name = "copy"; }
    c.desc << name << " ";
    for( std::size_t i = 0; i < A.size(); i++ ) compare( c, A[i], E[i], "history", "after " + name );
  }
  for( std::size_t i = 0; i < A.size(); i++ ) for( std::size_t j = 0; j < A.size(); j++ )
  {
    c.eq( A[i] == A[j], E[i] == E[j], "equality" ); c.eq( A[i] != A[j], !( E[i] == E[j] ), "inequality" );
  }
  // The printed form lists all indices of the columns; a matrix without columns is valid, too
  {
    std::ostringstream o; o << A[0]; std::istringstream in( o.str() ); std::string token; std::multiset<std::string> have; while( in >> token ) have.insert( token );
    std::map<std::size_t,std::size_t> want; for( auto& col : E[0].col ) for( auto i : col ) want[i]++; for( auto& w : want ) c.expect( have.count( std::to_string( w.first ) ) >= w.second, "printed", o.str() );
    M Z; compare( c, Z, Model(), "empty", "" ); c.expect( Z == M() && !( Z != M() ), "empty-equal" ); std::ostringstream p; p << Z; Z.setNumColumns( Index( 0 ) ); compare( c, Z, Model(), "empty", "" );
  }
  if( steps > 3 && n > 2 ) c.nontrivial( h );
}

inline Model modelOf( const Cx& K )
{
  Model E; auto cols = boundaryColumns( K );
  for( std::size_t j = 0; j < K.size(); j++ ) { E.col.push_back( std::set<std::size_t>( cols[j].begin(), cols[j].end() ) ); E.dim.push_back( K.s[j].size() - 1 ); }
  return E;
}

// Conversion from complexes, dualization, text format
template <class Rep> void conversion( Ctx& c )
{
  using M = BoundaryMatrix<Rep>; using Index = typename M::Index;
  CxOptions o; o.maxDim = 5; if( c.k % 6 == 0 ) { o.maxVertices = 14; o.maxGenerators = 30; }
  auto K = randomComplex( c.rng, o ); c.desc << K.text(); if( K.size() > 3 ) c.nontrivial( K.digest() );
  auto E = modelOf( K );
  auto A = makeBoundaryMatrix<Rep>( toComplex<Simplex<double,unsigned>>( K ) );
  compare( c, A, E, "conversion", "" );
  compare( c, A.dualize(), E.dualize(), "dualize", "" );
  c.expect( A.dualize().dualize() == A, "dualize-twice" );
  compare( c, A.dualize().dualize(), E, "dualize-twice", "" );

  // Partial conversion
  std::size_t max = 1 + c.rng.below( K.size() );
  auto P = makeBoundaryMatrix<Rep>( toComplex<Simplex<double,unsigned>>( K ), max );
  auto F = E; for( std::size_t j = max; j < K.size(); j++ ) F.col[j].clear();
  compare( c, P, F, "partial-conversion", "" );

  // Text format, with comments, empty lines and permuted indices
  std::string text;
  auto noise = [&] { while( c.rng.chance( 0.15 ) ) { int q = c.rng.range( 0, 3 ); text += q == 0 ? "# a comment 1 2 3\n" : q == 1 ? "\n" : q == 2 ? "   \n" : "#\n"; } };
  for( std::size_t j = 0; j < K.size(); j++ )
  {
    noise();
    std::vector<std::size_t> v( E.col[j].begin(), E.col[j].end() ); if( c.rng.chance( 0.5 ) ) c.rng.shuffle( v );
    if( c.rng.chance( 0.1 ) ) text += " ";
    text += std::to_string( E.dim[j] ); for( auto i : v ) text += ( c.rng.chance( 0.2 ) ? "\t" : " " ) + std::to_string( i );
    if( c.rng.chance( 0.1 ) ) text += " ";
    if( c.rng.chance( 0.05 ) ) text += "\r";
    if( j + 1 < K.size() || c.rng.chance( 0.7 ) ) text += "\n";
  }
  { std::istringstream in( text ); auto B = M::load( in ); compare( c, B, E, "load", text ); }
  { std::string f = c.scratch + "/matrix.txt"; writeFile( f, text ); auto B = M::load( f ); compare( c, B, E, "load-file", "" ); c.expect( B == A, "load-equal" ); }

  // A wrong dimension must be rejected
  {
    std::size_t j = c.rng.below( K.size() ); std::string bad;
    for( std::size_t i = 0; i < K.size(); i++ ) { bad += std::to_string( E.dim[i] + ( i == j ? 1 : 0 ) ); for( auto x : E.col[i] ) bad += " " + std::to_string( x ); bad += "\n"; }
    std::istringstream in( bad ); c.throws( [&] { M::load( in ); }, "inconsistent-dimension-accepted" );
  }
}

} // namespace c02
