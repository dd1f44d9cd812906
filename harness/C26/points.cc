// Point clouds, search structures and complexes built from them
#include "c26.hh"
#include "points.hh"

#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/MeanShift.hh>
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/CechComplex.hh>
#include <aleph/geometry/CoverTree.hh>
#include <aleph/geometry/DowkerComplex.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/WitnessComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>
#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/SymmetricMatrix.hh>

using namespace c26;
namespace geo = aleph::geometry; namespace dist = aleph::geometry::distances; namespace con = aleph::containers;

namespace
{

using PC = con::PointCloud<double>; using E = dist::Euclidean<double>; using M = dist::Manhattan<double>; using I = std::vector<std::vector<std::size_t>>; using V = std::vector<std::vector<double>>;

template <class NN> std::string radius( const NN& nn, double r ) { I i; V d; nn.radiusSearch( r, i, d ); for( auto& x : i ) std::sort( x.begin(), x.end() ); for( auto& x : d ) std::sort( x.begin(), x.end() ); return show( i ) + show( d ); }
template <class NN> std::string nearest( const NN& nn, unsigned k ) { I i; V d; nn.neighbourSearch( k, i, d ); for( auto& x : d ) std::sort( x.begin(), x.end() ); return show( d ); }

struct P2 { double x, y; friend std::ostream& operator<<( std::ostream& o, const P2& p ) { return o << p.x << " " << p.y; } bool operator<( const P2& b ) const { return x < b.x || ( x == b.x && y < b.y ); } bool operator==( const P2& b ) const { return x == b.x && y == b.y; } }; struct D2 { double operator()( const P2& a, const P2& b ) const { return std::hypot( a.x - b.x, a.y - b.y ); } };

PC cloud( Ctx& c, std::size_t n, std::size_t d, std::string& w ) { auto P = randomPoints( c.rng, n, d, 0 ); PC p( n, d ); for( std::size_t i = 0; i < n; i++ ) p.set( i, P[i].begin(), P[i].end() ); w = show( P ); c.desc << w; c.nontrivial( hashString( w ) ); return p; }

SECTION( search, 300, 2800 )
{
  std::string w; const PC p = cloud( c, std::size_t( c.rng.range( 3, 14 ) ), std::size_t( c.rng.range( 1, 4 ) ), w ); const PC p2 = p; double r = c.rng.real( 1, 6 ); const geo::BruteForce<PC,E> be( p ); const geo::BruteForce<PC,M> bm( p ); const geo::FLANN<PC,E> fe( p ); const geo::FLANN<PC,M> fm( p ); Ops o;
  o.add( "cloud", [&]{ std::string s = STREAM( p ); for( std::size_t i = 0; i < p.size(); i++ ) s += show( p[i] ); return s + ( p == p2 ? "=" : "!" ) + std::to_string( p.dimension() ) + ( p.empty() ? "e" : "" ); } );
  o.add( "cloud-sum", [&]{ return STREAM( p + p2 ); } ); o.add( "cloud-copy", [&]{ PC q( p ); q.set( 0, p[1] .begin(), p[1].end() ); return STREAM( q ); } );
  o.add( "brute-radius", [&]{ return radius( be, r ) + radius( bm, r ); } ); o.add( "brute-nearest", [&]{ return nearest( be, 3 ) + nearest( bm, 2 ); } ); o.add( "flann-radius", [&]{ return radius( fe, r ) + radius( fm, r ); } ); o.add( "flann-nearest", [&]{ return nearest( fe, 3 ) + nearest( fm, 2 ); } ); o.add( "sizes", [&]{ return std::to_string( be.size() + fe.size() ); } );
  o.add( "rips-brute", [&]{ return geo::buildVietorisRipsComplex( be, r, 2 ); } ); o.add( "rips-flann", [&]{ return geo::buildVietorisRipsComplex( fe, r, 2 ); } ); o.add( "skeleton", [&]{ return geo::RipsSkeleton<geo::BruteForce<PC,E>>()( be, r ); } );
  o.add( "rips-data", [&]{ std::vector<double> f( p.size() ); for( std::size_t i = 0; i < f.size(); i++ ) f[i] = double( i % 3 ); return geo::buildVietorisRipsComplex( be, r, 2, f.begin(), f.end() ); } );
  concurrently( c, o, w );
}

SECTION( geometry, 300, 2800 )
{
  std::string w; const PC p = cloud( c, std::size_t( c.rng.range( 4, 10 ) ), 2, w ); double r = c.rng.real( 1, 5 ); using S = aleph::topology::Simplex<double,unsigned>; using K = aleph::topology::SimplicialComplex<S>; auto X = randomComplex( c.rng ); K edges; { std::vector<S> s; for( unsigned i = 0; i < 8; i++ ) s.push_back( S( i ) ); for( unsigned i = 0; i < 8; i++ ) for( unsigned j = 0; j < i; j++ ) if( c.rng.chance( 0.6 ) ) s.push_back( S( { i, j }, c.rng.real() ) ); edges = K( s.begin(), s.end() ); } const K g = edges; std::vector<std::size_t> L { 0, 1, 2, 3 }; V W( 5, std::vector<double>( 5 ) ); for( auto& x : W ) for( auto& y : x ) y = c.rng.real(); const auto Wc = W; std::vector<std::pair<double,double>> pts; for( std::size_t i = 0; i < p.size(); i++ ) pts.push_back( { p[i][0], p[i][1] } ); Ops o;
  geo::CoverTree<P2,D2> tree; for( auto& q : pts ) tree.insert( P2{ q.first, q.second } ); const auto& T = tree;
  o.add( "expand", [&]{ geo::RipsExpander<K> x; auto k = x( g, 3 ); return x.assignMaximumWeight( k ); } ); o.add( "top-down", [&]{ geo::RipsExpanderTopDown<K> x; return x( g, 3 ); } );
  o.add( "cech", [&]{ return geo::buildCechComplex( p, r ); } ); o.add( "beta", [&]{ return geo::buildBetaSkeletonNaive<E>( p, 1.5 ); } ); o.add( "witness", [&]{ return geo::buildWitnessComplex<E>( p, L.begin(), L.end(), 2u, 1u, r ); } );
  o.add( "dowker", [&]{ auto a = geo::admissiblePairs( Wc, 0.8 ); auto k = geo::buildDowkerSinkSourceComplexes<unsigned,double>( a, 2 ); return show( k.first ) + show( k.second ); } );
  o.add( "tree", [&]{ std::string s = std::to_string( T.level() ) + ( T.isValid() ? "+" : "-" ) + ( T.checkLevelInvariant() ? "+" : "-" ) + ( T.checkCoveringInvariant() ? "+" : "-" ) + ( T.checkSeparatingInvariant() ? "+" : "-" ); for( auto& q : T.points() ) s += show( q.x ); for( auto& kv : T.getNodesByLevel() ) s += std::to_string( kv.first ) + show( kv.second.x ); for( auto& kv : T.nodesToLevel() ) s += std::to_string( kv.second ); return s; } );
  concurrently( c, o, w );
}

SECTION( descriptors, 200, 2000 )
{
  std::string w; const PC p = cloud( c, std::size_t( c.rng.range( 8, 16 ) ), 3, w ); using BF = geo::BruteForce<PC,E>; Ops o; const BF nn( p );
  o.add( "eccentricities", [&]{ return con::eccentricities<E>( p, 2 ); } ); o.add( "eccentricities-maximum", [&]{ return con::eccentricities<E>( p, 0 ); } ); o.add( "gaussian", [&]{ return con::estimateDensityTruncatedGaussian( p, 2.0 ); } ); o.add( "measure", [&]{ return con::estimateDensityDistanceToMeasure<E,PC,BF>( p, 3 ); } ); o.add( "depth", [&]{ return con::estimateLensDataDepth<E>( p ); } );
  o.add( "dimension", [&]{ return con::estimateLocalDimensionalityNearestNeighbours<E,PC,BF>( p, 3 ); } ); o.add( "likelihood", [&]{ return con::estimateLocalDimensionalityNearestNeighboursMLE<E,PC,BF>( p, 3, 5 ); } ); o.add( "pca", [&]{ return con::estimateLocalDimensionalityPCA<E,PC,BF>( p, 5 ); } );
  o.add( "meanshift", [&]{ std::vector<double> f( p.size() ), g; for( std::size_t i = 0; i < f.size(); i++ ) f[i] = double( i ); con::meanShiftSmoothing<BF>( p, f.begin(), f.end(), std::back_inserter( g ), 3, 2 ); return g; } );
  o.add( "components", [&]{ std::vector<std::vector<double>> X; for( std::size_t i = 0; i < p.size(); i++ ) X.push_back( p[i] ); aleph::math::PrincipalComponentAnalysis pca; auto r = pca( X ); return std::vector<double>( r.singularValues.begin(), r.singularValues.end() ); } );
  concurrently( c, o, w );
}

SECTION( containers, 750, 6000 )
{
  unsigned n = unsigned( c.rng.range( 1, 9 ) ); aleph::math::SymmetricMatrix<double> m0( n ); aleph::math::SparseBinaryMatrix<unsigned> b0( n ); for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j <= i; j++ ) { m0( i, j ) = c.rng.real(); if( c.rng.chance( 0.4 ) ) b0.set( i, j ); } const auto m = m0; const auto b = b0; std::vector<double> co; for( int i = 0; i < 5; i++ ) co.push_back( c.rng.real( 0.5, 2 ) ); co[0] = -1; const aleph::math::AlgebraicSphere<double> s( co.begin(), co.end() ); std::string w = STREAM( m ) + show( co ); c.desc << w; c.nontrivial( hashString( w ) ); Ops o;
  o.add( "symmetric", [&]{ std::vector<double> v { double( m.numRows() ), double( m.empty() ) }; for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < n; j++ ) v.push_back( m( i, j ) ); return v; } ); o.add( "symmetric-stream", [&]{ return STREAM( m ); } );
  o.add( "sparse", [&]{ std::vector<unsigned> v; for( unsigned j = 0; j < n; j++ ) { b.get( j, std::back_inserter( v ) ); v.push_back( unsigned( b.numEntries( j ) ) ); for( unsigned i = 0; i < n; i++ ) v.push_back( b.get( i, j ) ); } return v; } );
  o.add( "sphere", [&]{ auto v = s.centre(); v.push_back( s.radius() ); v.push_back( s.meanCurvature() ); v.push_back( s.gaussianCurvature() ); return v; } );
  concurrently( c, o, w );
}

} // namespace
