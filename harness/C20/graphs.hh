#pragma once
#include "bridge.hh"

using namespace vp;
using namespace aleph::topology;

namespace
{

std::set<VSet> sets( const Cx& A ) { return { A.s.begin(), A.s.end() }; }
std::vector<unsigned> verticesOf( const Cx& A ) { std::vector<unsigned> v; for( auto& s : A.s ) if( s.size() == 1 ) v.push_back( s[0] ); std::sort( v.begin(), v.end() ); return v; }

// Graphs of every density, with ids of every kind
Cx randomGraph( Ctx& c, unsigned maxVertices, unsigned maxId, bool higher )
{
  if( higher && c.rng.chance( 0.5 ) ) { CxOptions o; o.maxVertices = maxVertices; o.maxDim = 3; o.maxGenerators = 14; o.maxId = maxId; return randomComplex( c.rng, o ); }
  auto n = static_cast<std::size_t>( c.rng.range( 1, maxVertices ) ); auto ids = vertexIds( c.rng, n, int( c.rng.below( 3 ) ), maxId );
  std::set<VSet> S; for( auto v : ids ) S.insert( VSet{ v } );
  auto add = [&]( std::size_t i, std::size_t j ) { if( i == j ) return; VSet e{ ids[i], ids[j] }; std::sort( e.begin(), e.end() ); S.insert( e ); };
  switch( c.rng.below( 6 ) )
  {
    case 0: for( std::size_t i = 0; i + 1 < n; i++ ) add( i, i + 1 ); break; // path
    case 1: for( std::size_t i = 0; i < n; i++ ) add( i, ( i + 1 ) % n ); break; // cycle
    case 2: for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) if( i / 3 != j / 3 ) add( i, j ); break; // many cliques
    default: { double p = c.rng.pick( std::vector<double>{ 0.05, 0.2, 0.5, 0.8, 1 } ); for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) if( c.rng.chance( p ) ) add( i, j ); }
  }
  return orderComplex( c.rng, randomWeights( c.rng, S, -1 ), true );
}

template <class T> void cast( Cx& A ) { for( auto& w : A.w ) w = static_cast<double>( static_cast<T>( w ) ); }

} // namespace

#define TYPES( f ) switch( c.k % 5 ) { case 0: f<Simplex<double,unsigned>>( c, 4000000 ); break; case 1: f<Simplex<double,unsigned short>>( c, 60000 ); break; case 2: f<Simplex<float,unsigned>>( c, 1000 ); break; case 3: f<Simplex<float,unsigned short>>( c, 30 ); break; default: f<Simplex<double,unsigned>>( c, 30 ); }
