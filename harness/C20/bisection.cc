// Spectral bisection.
#include "graphs.hh"

#include <aleph/topology/Partitions.hh>

namespace
{

template <class S> void bisection( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType;
  auto A = randomGraph( c, 12, maxId, true ); cast<T>( A );
  std::set<unsigned> left, right;
  if( c.rng.chance( 0.3 ) )
  {
    // two cliques that are joined by a single edge
    std::size_t m = std::size_t( c.rng.range( 3, 6 ) ); auto ids = vertexIds( c.rng, 2 * m, int( c.rng.below( 3 ) ), maxId ); c.rng.shuffle( ids );
    std::map<VSet,double> W; auto add = [&]( unsigned a, unsigned b ) { VSet e{ std::min( a, b ), std::max( a, b ) }; W[e] = 1; };
    for( auto v : ids ) W[ VSet{ v } ] = 0;
    for( std::size_t i = 0; i < m; i++ ) { left.insert( ids[i] ); right.insert( ids[ m + i ] ); for( std::size_t j = 0; j < i; j++ ) { add( ids[i], ids[j] ); add( ids[ m + i ], ids[ m + j ] ); } }
    add( ids[0], ids[m] ); A = orderComplex( c.rng, W, true );
  }
  auto k = toComplex<S>( A ); auto v = verticesOf( A ); c.desc << A.text( 12 );
  if( v.size() < 2 ) { try { (void) bisect( k ); } catch( const std::exception& ) {} return; }
  c.nontrivial( A.digest() );
  auto parts = bisect( k ); c.eq( parts.size(), std::size_t( 2 ), "bisect-number" ); if( parts.size() != 2 ) return;
  std::vector<std::set<unsigned>> P( 2 ); auto W = weightsOf( k );
  for( int i = 0; i < 2; i++ ) for( auto&& s : parts[ std::size_t( i ) ] ) if( s.dimension() == 0 ) P[ std::size_t( i ) ].insert( unsigned( *s.begin() ) );
  std::vector<unsigned> both; std::set_intersection( P[0].begin(), P[0].end(), P[1].begin(), P[1].end(), std::back_inserter( both ) );
  c.expect( both.empty(), "bisect-disjoint", A.text() ); c.eq( P[0].size() + P[1].size(), v.size(), "bisect-cover", A.text() );
  for( int i = 0; i < 2; i++ )
  {
    std::map<VSet,double> E; for( auto& kv : W ) if( std::all_of( kv.first.begin(), kv.first.end(), [&]( unsigned x ) { return P[ std::size_t( i ) ].count( x ); } ) ) E.insert( kv );
    auto L = weightsOf( parts[ std::size_t( i ) ] ); c.expect( L == E && parts[ std::size_t( i ) ].size() == E.size(), "bisect-induced", text( L ) + " expected " + text( E ) );
  }
  // at most half of the values are smaller than their median
  c.expect( P[0].size() <= v.size() / 2, "bisect-balance", A.text() );
  if( !left.empty() ) c.expect( ( P[0] == left && P[1] == right ) || ( P[0] == right && P[1] == left ), "bisect-cut", A.text() );
}

} // namespace

SECTION( bisection, 8000, 100000 )   { TYPES( bisection ) }
