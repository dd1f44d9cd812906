// Complexes, matrices and persistence
#include "c26.hh"

#include <aleph/persistenceDiagrams/Calculation.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/persistentHomology/PhiPersistence.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Spine.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace c26;
using namespace aleph::topology;
namespace alg = aleph::persistentHomology::algorithms;

namespace
{

using S = Simplex<double,unsigned>; using K = SimplicialComplex<S>;

template <class P> std::string pairs( const P& p ) { std::ostringstream o; for( auto&& x : p ) o << x.first << "," << x.second << " "; return o.str(); }
template <class M> std::string columns( const M& m ) { std::ostringstream o; for( decltype( m.getNumColumns() ) j = 0; j < m.getNumColumns(); j++ ) { o << m.getDimension( j ) << "|"; for( auto i : m.getColumn( j ) ) o << i << " "; auto top = m.getMaximumIndex( j ); if( top.second ) o << "^" << top.first; } o << m.getDimension() << m.isDualized(); return o.str(); }

template <class R> void homology( Ops& o, const K& k, const BoundaryMatrix<R>& m, const std::string& r )
{
  o.add( "diagrams-standard-" + r, [&k]{ return aleph::calculatePersistenceDiagrams<alg::Standard,R>( k ); } );
  o.add( "diagrams-twist-" + r, [&k]{ return aleph::calculatePersistenceDiagrams<alg::Twist,R>( k, false, true ); } );
  o.add( "matrix-" + r, [&k]{ return columns( makeBoundaryMatrix<R>( k ) ); } );
  o.add( "columns-" + r, [&m]{ return columns( m ); } );
  o.add( "dual-" + r, [&m]{ return columns( m.dualize() ); } );
  o.add( "copy-" + r, [&m]{ BoundaryMatrix<R> n( m ); alg::Standard a; a( n ); return columns( n ) + ( n == m ? "=" : "" ) + ( n != m ? "!" : "" ); } );
  o.add( "pairing-standard-" + r, [&m]{ return pairs( aleph::calculatePersistencePairing<alg::Standard>( m ) ); } );
  o.add( "pairing-twist-" + r, [&m]{ return pairs( aleph::calculatePersistencePairing<alg::Twist>( m, true ) ); } );
  o.add( "stream-" + r, [&m]{ return STREAM( m ); } );
}

K random( Ctx& c, std::string& w ) { CxOptions op; op.maxDim = 3; op.allowEmpty = false; Cx X = randomComplex( c.rng, op ); auto L = toComplex<S>( X ); w = show( L ); c.desc << w; c.nontrivial( hashString( w ) ); return L; }

SECTION( complex, 300, 2800 )
{
  std::string w; const K k = random( c, w ); const K other = k; Ops o;
  o.add( "iterate", [&]{ return k; } );
  o.add( "size", [&]{ return std::to_string( k.size() ) + " " + std::to_string( k.empty() ? 0 : k.dimension() ); } );
  o.add( "find", [&]{ std::string r; for( std::size_t i = 0; i < k.size(); i++ ) { auto s = k.at( i ); r += std::to_string( k.index( s ) ) + ( k.contains( s ) ? "+" : "-" ) + ( k.find( s ) != k.end() && k[i] == s ? "+" : "-" ); } return r + ( k.contains( S( { 90u, 91u } ) ) ? "+" : "-" ); } );
  o.add( "vertices", [&]{ std::vector<unsigned> v; k.vertices( std::back_inserter( v ) ); return std::set<unsigned>( v.begin(), v.end() ); } );
  o.add( "range", [&]{ std::string r; for( std::size_t d = 0; d <= 3; d++ ) { auto p = k.range( d ); for( auto it = p.first; it != p.second; ++it ) r += STREAM( *it ); } return r; } );
  o.add( "lexicographical", [&]{ std::string r; for( auto it = k.begin_lexicographical(); it != k.end_lexicographical(); ++it ) r += STREAM( *it ); return r; } );
  o.add( "dimensions", [&]{ std::size_t n = 0; for( auto it = k.begin_dimension(); it != k.end_dimension(); ++it ) n += it->dimension(); return double( n ); } );
  o.add( "boundary", [&]{ std::string r; for( auto&& s : k ) for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it ) r += STREAM( *it ); return r; } );
  o.add( "equality", [&]{ return std::string( k == other ? "=" : "" ) + ( k != other ? "!" : "" ); } );
  o.add( "copy", [&]{ K l( k ); l.sort(); l.createMissingFaces(); return l; } );
  o.add( "sorted-copy", [&]{ K l( k ); l.sort( filtrations::Data<S,std::greater<double>>() ); return l; } );
  o.add( "stream", [&]{ return STREAM( k ); } );
  o.add( "euler", [&]{ return double( aleph::eulerCharacteristic( k ) ); } );
  o.add( "skeleton", [&]{ return Skeleton()( 1, k ); } );
  o.add( "filter", [&]{ return Filter()( k, []( const S& s ){ return s.dimension() < 2; } ); } );
  o.add( "components", [&]{ auto uf = calculateConnectedComponents( k ); std::set<unsigned> r; uf.roots( std::inserter( r, r.end() ) ); return r; } );
  o.add( "intersect", [&]{ std::string r; for( auto&& s : k ) { for( auto&& t : intersect( k, s ) ) r += STREAM( t ); for( auto&& t : k ) r += std::to_string( sizeOfIntersection( s, t ) ) + STREAM( intersect( s, t ) ); } return r; } );
  o.add( "cone", [&]{ return cone( k ); } ); o.add( "suspension", [&]{ return suspension( k ); } );
  if( k.size() < 40 ) o.add( "subdivision", [&]{ return BarycentricSubdivision()( k ); } );
  o.add( "spine", [&]{ return double( spine( k ).size() ); } ); o.add( "principal", [&]{ std::set<std::string> r; for( auto&& s : k ) if( dumb::isPrincipal( s, k ) ) r.insert( STREAM( s ) ); return r; } );
  o.add( "zero-dimensional", [&]{ return std::get<0>( aleph::calculateZeroDimensionalPersistenceDiagram<S,aleph::traits::PersistencePairingCalculation<aleph::PersistencePairing<unsigned>>>( k ) ); } );
  o.add( "hierarchy", [&]{ aleph::ExtendedPersistenceHierarchy<S> e; auto r = e( k ); return double( r.first.size() + 1000 * r.second.size() ); } );
  o.add( "diagrams", [&]{ return aleph::calculatePersistenceDiagrams( k ); } );
  o.add( "intersection-homology", [&]{ return aleph::calculateIntersectionHomology( k, std::vector<K>( k.dimension() + 1, k ), aleph::Perversity( { -1, 0, 0, 0 } ) ); } );
  o.add( "partition", [&]{ auto r = aleph::partition( k, []( const S& s ){ return s.dimension() % 2 == 0; } ); return show( r.first ) + std::to_string( r.second ); } );
  concurrently( c, o, w );
}

SECTION( homology, 300, 2800 )
{
  std::string w; const K k = random( c, w ); const auto v = makeBoundaryMatrix<representations::Vector<unsigned>>( k ); const auto l = makeBoundaryMatrix<representations::List<unsigned>>( k ); const auto s = makeBoundaryMatrix<representations::Set<unsigned>>( k ); Ops o; homology( o, k, v, "vector" ); homology( o, k, l, "list" ); homology( o, k, s, "set" ); const auto p = aleph::calculatePersistencePairing( v ); o.add( "pairing", [&]{ std::string r = pairs( p ) + std::to_string( p.size() ); for( unsigned i = 0; i < k.size(); i++ ) r += p.contains( i, i + 1 ) ? "+" : "-"; return r + STREAM( p ); } ); o.add( "make-diagrams", [&]{ return aleph::makePersistenceDiagrams( p, k ); } ); concurrently( c, o, w );
}

} // namespace
