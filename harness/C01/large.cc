#include "c01.hh"

#include <aleph/persistenceDiagrams/Calculation.hh>

using namespace c01;
using namespace aleph::topology;

// Larger complexes: tori, flag complexes, random graphs; default arguments
SECTION( large, 150, 1500 )
{
  Cx K; int kind = int( c.k % 4 );
  if( kind == 0 )
  {
    auto S = torusGrid( static_cast<unsigned>( c.rng.range( 3, c.thorough ? 14 : 9 ) ), static_cast<unsigned>( c.rng.range( 3, c.thorough ? 14 : 9 ) ) );
    K = orderComplex( c.rng, randomWeights( c.rng, S, c.rng.range( 0, 4 ) ), c.rng.chance( 0.5 ) );
  }
  else
  {
    CxOptions o; o.maxVertices = kind == 1 ? 18 : 30; o.maxDim = kind == 1 ? 6 : ( kind == 2 ? 3 : 1 ); o.maxGenerators = kind == 3 ? 200 : 60;
    K = randomComplex( c.rng, o );
  }
  descend( c, K );
  c.desc << K.text( 25 ); c.nontrivial( K.digest() );
  auto L = toComplex<Simplex<double,unsigned>>( K );
  Pairing E[2] = { persistence( K, false ), persistence( K, true ) };
  compareDiagrams( c, aleph::calculatePersistenceDiagrams( L ), diagrams( K, E[0] ), "diagrams-default", "default arguments" );
  compareDiagrams( c, aleph::calculatePersistenceDiagrams( L, false ), diagrams( K, E[0] ), "diagrams-default", "dualize=false" );
  compareDiagrams( c, aleph::calculatePersistenceDiagrams( L, true, true ), diagrams( K, E[1] ), "diagrams-default", "all unpaired" );
  auto M = makeBoundaryMatrix( L );
  auto p = toPairs( aleph::calculatePersistencePairing( M ) );
  c.expect( p == E[0].pairs, "pairing-default", "default arguments" );
  c.expect( std::is_sorted( p.begin(), p.end() ), "pairing-sorted" );
  auto q = toPairs( aleph::calculatePersistencePairing<alg::Standard>( M.dualize(), true ) );
  c.expect( q == E[1].pairs, "pairing-default", "dual standard" );
  compareDiagrams( c, aleph::makePersistenceDiagrams( aleph::calculatePersistencePairing( M ), L ), diagrams( K, E[0] ), "make-diagrams", "" );
}

// Vertex names, order of vertices within simplices, and the data of other
// simplices with the same order do not matter
SECTION( relabelling, 1000, 20000 )
{
  auto K = input( c );
  auto D = aleph::calculatePersistenceDiagrams( toComplex<Simplex<double,unsigned>>( K ), c.rng.chance( 0.5 ), true );
  std::set<unsigned> V; for( auto& s : K.s ) V.insert( s.begin(), s.end() );
  auto ids = vertexIds( c.rng, V.size(), 2, 1000000 ); c.rng.shuffle( ids );
  std::map<unsigned,unsigned> m; std::size_t i = 0; for( auto v : V ) m[v] = ids[i++];
  Cx R = K; for( auto& s : R.s ) { for( auto& v : s ) v = m[v]; c.rng.shuffle( s ); }
  auto E = aleph::calculatePersistenceDiagrams( toComplex<Simplex<double,unsigned>>( R ), c.rng.chance( 0.5 ), true );
  bool same = D.size() == E.size();
  for( std::size_t j = 0; same && j < D.size(); j++ ) same = toDgm( D[j] ) == toDgm( E[j] ) && D[j].dimension() == E[j].dimension();
  c.expect( same, "relabelling" );
}

// Diagrams from a boundary matrix and function values
SECTION( function_values, 1000, 10000 )
{
  CxOptions o; o.maxDim = 1; auto K = randomComplex( c.rng, o ); descend( c, K );
  c.desc << K.text(); if( K.size() > 2 ) c.nontrivial( K.digest() );
  auto M = makeBoundaryMatrix( toComplex<Simplex<double,unsigned>>( K ) );
  auto D = aleph::calculatePersistenceDiagram( c.rng.chance( 0.5 ) ? M : M.dualize(), K.w );
  Dgm e; for( auto& kv : diagrams( K, false ) ) e.insert( e.end(), kv.second.begin(), kv.second.end() );
  std::sort( e.begin(), e.end() );
  auto a = toDgm( D );
  c.expectf( a == e, "function-values", [&]( std::ostream& o ) { o << "actual " << str( a ) << " expected " << str( e ); } );
}

// More simplices than 16 bits can enumerate: a chain of filled and hollow
// triangles
SECTION( huge, 5, 15 )
{
  Cx K; std::size_t blocks = 9000; bool byDimension = c.rng.chance( 0.5 );
  std::vector<VSet> S[3];
  for( unsigned i = 0; i < blocks; i++ )
  {
    unsigned v = 3 * i; std::vector<VSet> B = { {v}, {v+1}, {v+2}, {v,v+1}, {v,v+2}, {v+1,v+2} };
    if( c.rng.chance( 0.6 ) ) B.push_back( {v,v+1,v+2} );
    if( i && c.rng.chance( 0.9 ) ) B.push_back( {v-1,v} );
    for( auto& s : B ) { if( byDimension ) S[ s.size() - 1 ].push_back( s ); else { K.s.push_back( s ); K.w.push_back( double( i ) ); } }
  }
  for( auto& s : S ) { c.rng.shuffle( s ); for( auto& x : s ) { K.s.push_back( x ); K.w.push_back( double( K.s.size() / 7 ) ); } }
  c.desc << K.text( 25 ); c.nontrivial( K.digest() );
  auto L = toComplex<Simplex<double,unsigned>>( K );
  int all = c.k % 2; auto E = persistence( K, all != 0 );
  if( c.k % 5 == 4 ) { compareDiagrams( c, aleph::calculatePersistenceDiagrams( L, true, all != 0 ), diagrams( K, E ), "diagrams-huge", "default arguments" ); return; }
  auto M = makeBoundaryMatrix( L ); decltype( E.pairs ) p;
  switch( c.k % 5 )
  {
  case 0: p = toPairs( aleph::calculatePersistencePairing<alg::Twist>( M.dualize(), all != 0 ) ); break;
  case 1: p = toPairs( aleph::calculatePersistencePairing<alg::Twist>( M, all != 0 ) ); break;
  case 2: p = toPairs( aleph::calculatePersistencePairing<alg::Standard>( M, all != 0 ) ); break;
  default: p = toPairs( aleph::calculatePersistencePairing<alg::Standard>( M.dualize(), all != 0 ) );
  }
  c.expectf( p == E.pairs, "pairing-huge", [&]( std::ostream& o ) { o << "configuration " << c.k % 5 << ": " << p.size() << " pairs, expected " << E.pairs.size(); } );
}
