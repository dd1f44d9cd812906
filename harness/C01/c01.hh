#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

namespace c01
{

using namespace vp;
namespace alg = aleph::persistentHomology::algorithms;

template <class P> std::vector<std::pair<std::size_t,std::size_t>> toPairs( const P& p )
{
  using Index = typename P::IndexType;
  std::vector<std::pair<std::size_t,std::size_t>> r;
  for( auto&& x : p ) r.push_back( { static_cast<std::size_t>( x.first ), x.second == std::numeric_limits<Index>::max() ? INF_INDEX : static_cast<std::size_t>( x.second ) } );
  return r;
}

inline std::string show( const std::vector<std::pair<std::size_t,std::size_t>>& v )
{
  std::ostringstream o; for( auto& p : v ) { o << "(" << p.first << ","; if( p.second == INF_INDEX ) o << "inf"; else o << p.second; o << ")"; } return o.str();
}

template <class D> void compareDiagrams( Ctx& c, const std::vector<D>& actual, const Dgms& expected, const std::string& key, const std::string& what )
{
  std::vector<int> dims, edims;
  for( auto& d : actual ) dims.push_back( int( d.dimension() ) );
  for( auto& kv : expected ) edims.push_back( kv.first );
  c.expect( dims == edims, key + "-dimensions", what + " actual " + str( dims ) + " expected " + str( edims ) );
  if( dims != edims ) return;
  for( std::size_t i = 0; i < dims.size(); i++ )
  {
    auto a = toDgm( actual[i] );
    c.expectf( a == expected.at( dims[i] ), key, [&]( std::ostream& o ) { o << what << " dimension " << dims[i] << " actual " << str( a ) << " expected " << str( expected.at( dims[i] ) ); } );
  }
}

template <class Algorithm, class Rep, class Simplex> void algorithm( Ctx& c, const Cx& K, const aleph::topology::SimplicialComplex<Simplex>& L, const aleph::topology::BoundaryMatrix<Rep>& M, const Pairing E[2], const std::string& name )
{
  using Index = typename Rep::Index;
  for( int dual = 0; dual < 2; dual++ )
  {
    auto N = dual ? M.dualize() : M;
    const auto before = N;
    for( int all = 0; all < 2; all++ )
    {
      std::string what = name + ( dual ? " dual" : " primal" ) + ( all ? " all" : " default" );
      auto P = aleph::calculatePersistencePairing<Algorithm>( N, all != 0 );
      auto p = toPairs( P );
      std::set<std::size_t> used; bool once = true;
      for( auto& x : p ) { once = once && used.insert( x.first ).second; if( x.second != INF_INDEX ) once = once && used.insert( x.second ).second && x.first < x.second; }
      c.expect( once, "simplex-in-two-pairs", what );
      std::sort( p.begin(), p.end() );
      c.expectf( p == E[all].pairs, "pairing", [&]( std::ostream& o ) { o << what << " actual " << show( p ) << " expected " << show( E[all].pairs ); } );

      // Pairings behave as containers of their pairs
      if( !p.empty() )
      {
        auto& q = p[ c.rng.below( p.size() ) ];
        c.expect( P.contains( static_cast<Index>( q.first ) ), "pairing-contains", what );
        if( q.second != INF_INDEX ) c.expect( P.contains( static_cast<Index>( q.first ), static_cast<Index>( q.second ) ) && !P.contains( static_cast<Index>( q.second ) ), "pairing-contains", what );
        auto it = P.find( static_cast<Index>( q.first ) );
        c.expect( it != P.end() && static_cast<std::size_t>( it->first ) == q.first, "pairing-find", what );
      }
      c.expect( P.size() == p.size() && P.empty() == p.empty(), "pairing-size", what );

      compareDiagrams( c, aleph::calculatePersistenceDiagrams<Algorithm,Rep>( L, dual != 0, all != 0 ), diagrams( K, E[all] ), "diagrams", what );

      // Restriction to the first `max` simplices
      if( K.size() > 1 && c.rng.chance( 0.5 ) )
      {
        auto max = 1 + c.rng.below( K.size() );
        auto R = toPairs( aleph::calculatePersistencePairing<Algorithm>( N, all != 0, static_cast<Index>( max ) ) );
        std::sort( R.begin(), R.end() );
        std::vector<std::pair<std::size_t,std::size_t>> e; for( auto& x : E[all].pairs ) if( x.first < max ) e.push_back( x );
        c.expectf( R == e, "restricted-pairing", [&]( std::ostream& o ) { o << what << " max " << max << " actual " << show( R ) << " expected " << show( e ); } );
      }
    }
    c.expect( N == before, "input-modified", name );
  }
}

template <class Rep, class Simplex> void configuration( Ctx& c, const Cx& K, const std::string& name )
{
  auto L = toComplex<Simplex>( K );
  auto M = aleph::topology::makeBoundaryMatrix<Rep>( L );
  Pairing E[2] = { persistence( K, false ), persistence( K, true ) };
  algorithm<alg::Standard>( c, K, L, M, E, name + " standard" );
  algorithm<alg::Twist>( c, K, L, M, E, name + " twist" );
  // The rectangular variant on an ordinary square matrix
  {
    auto p = toPairs( aleph::calculatePersistencePairing<alg::StandardRectangular>( M, true ) );
    c.expectf( p == E[1].pairs, "pairing-rectangular", [&]( std::ostream& o ) { o << name << " actual " << show( p ) << " expected " << show( E[1].pairs ); } );
  }
  // Euler-Poincare: alternating number of essential classes equals the
  // alternating number of simplices
  long chi = 0, h = 0;
  for( auto& s : K.s ) chi += s.size() % 2 ? 1 : -1;
  for( auto& D : aleph::calculatePersistenceDiagrams<alg::Twist,Rep>( L, true, true ) ) h += ( D.dimension() % 2 ? -1 : 1 ) * static_cast<long>( D.betti() );
  c.eq( h, chi, "euler-poincare", name );
}

// Superlevel sets: the weights decrease along the filtration
inline void descend( Ctx& c, Cx& K ) { if( c.rng.chance( 0.25 ) ) for( auto& w : K.w ) w = -w; }

inline Cx input( Ctx& c )
{
  CxOptions o;
  if( c.k % 11 == 0 ) o.maxVertices = 4;
  if( c.k % 7 == 3 ) { o.maxVertices = 12; o.maxDim = 5; o.maxGenerators = 25; }
  auto K = randomComplex( c.rng, o ); descend( c, K );
  c.desc << K.text();
  if( K.size() > 3 && K.dimension() > 0 ) c.nontrivial( K.digest() );
  return K;
}

} // namespace c01
