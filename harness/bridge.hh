// Conversions between the reference models and library types.
#ifndef VP_BRIDGE_HH
#define VP_BRIDGE_HH

#include "oracle.hh"

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

namespace vp
{

template <class Simplex> VSet vset( const Simplex& s )
{
  VSet v( s.begin(), s.end() ); std::sort( v.begin(), v.end() ); return v;
}

template <class Simplex> Simplex toSimplex( const VSet& v, double w = 0 )
{
  using V = typename Simplex::VertexType;
  std::vector<V> x; for( auto a : v ) x.push_back( static_cast<V>( a ) );
  return Simplex( x.begin(), x.end(), static_cast<typename Simplex::DataType>( w ) );
}

// Library complex with the simplices in exactly the order of K
template <class Simplex> aleph::topology::SimplicialComplex<Simplex> toComplex( const Cx& K )
{
  std::vector<Simplex> v;
  for( std::size_t i = 0; i < K.size(); i++ ) v.push_back( toSimplex<Simplex>( K.s[i], K.w[i] ) );
  return aleph::topology::SimplicialComplex<Simplex>( v.begin(), v.end() );
}

template <class Complex> Cx fromComplex( const Complex& L )
{
  Cx K; for( auto&& s : L ) { K.s.push_back( vset( s ) ); K.w.push_back( static_cast<double>( s.data() ) ); } return K;
}

template <class Complex> std::map<VSet,double> weightsOf( const Complex& L )
{
  std::map<VSet,double> m; for( auto&& s : L ) m[ vset( s ) ] = static_cast<double>( s.data() ); return m;
}

// Points of a diagram, deaths of unpaired points as +inf
template <class D> Dgm toDgm( const D& d )
{
  Dgm r; for( auto&& p : d ) r.push_back( { static_cast<double>( p.x() ), p.isUnpaired() ? INF : static_cast<double>( p.y() ) } );
  std::sort( r.begin(), r.end() ); return r;
}

template <class T> aleph::PersistenceDiagram<T> toDiagram( const Dgm& d )
{
  aleph::PersistenceDiagram<T> D;
  for( auto& p : d ) if( std::isinf( p.second ) ) D.add( static_cast<T>( p.first ) ); else D.add( static_cast<T>( p.first ), static_cast<T>( p.second ) );
  return D;
}

inline std::string text( const std::map<VSet,double>& W )
{
  std::ostringstream o; o.precision( 8 ); for( auto& kv : W ) { o << "{"; for( std::size_t i = 0; i < kv.first.size(); i++ ) o << ( i ? " " : "" ) << kv.first[i]; o << "}:" << kv.second << " "; } return o.str();
}

// Every simplex once, all faces present
template <class Complex> void expectClosed( Ctx& c, const Complex& L, const std::string& key )
{
  std::set<VSet> S; std::size_t n = 0;
  for( auto&& s : L ) { S.insert( vset( s ) ); ++n; }
  c.eq( S.size(), n, key + "-duplicates" );
  bool ok = true; VSet bad;
  for( auto& s : S ) for( auto& f : facesOf( s ) ) if( !S.count( f ) ) { ok = false; bad = f; }
  c.expect( ok, key + "-closed", "missing face " + str( bad ) );
}

// In filtration order: weights monotone (increasing) and faces precede cofaces
template <class Complex> void expectFiltration( Ctx& c, const Complex& L, const std::string& key, bool ascending = true )
{
  std::set<VSet> S; bool faces = true, mono = true; double last = ascending ? -INF : INF;
  for( auto&& s : L )
  {
    auto v = vset( s ); for( auto& f : facesOf( v ) ) if( !S.count( f ) ) faces = false;
    S.insert( v ); double x = static_cast<double>( s.data() );
    if( ascending ? x < last : x > last ) mono = false; last = x;
  }
  c.expect( faces, key + "-faces-first" ); c.expect( mono, key + "-monotone" );
}

} // namespace vp

#endif
