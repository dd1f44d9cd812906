// Diagrams, functions derived from them and kernels
#include "c26.hh"

#include <aleph/math/KernelDensityEstimator.hh>
#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/Quantiles.hh>
#include <aleph/math/Statistics.hh>
#include <aleph/math/StepFunction.hh>
#include <aleph/persistenceDiagrams/Distances.hh>
#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>
#include <aleph/geometry/distances/Infinity.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>
#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

using namespace c26;

namespace
{

using D = aleph::PersistenceDiagram<double>; namespace ad = aleph::distances; using E = aleph::geometry::distances::InfinityDistance<double>;

D diagram( Ctx& c, int n, bool unpaired ) { D d; for( int i = 0; i < n; i++ ) { double x = c.rng.real( 0, 5 ); d.add( x, x + c.rng.real( 0.1, 5 ) ); } if( unpaired ) d.add( 0.5 ); d.setDimension( 1 ); return d; }

SECTION( diagram, 400, 3600 )
{
  const D a = diagram( c, c.rng.range( 2, 9 ), false ), b = diagram( c, c.rng.range( 2, 9 ), false ), u = diagram( c, 5, true ); std::string w = show( a ) + " and " + show( b ); c.desc << w; c.nontrivial( hashString( w ) ); Ops o;
  o.add( "points", [&]{ std::string r = show( a ) + STREAM( a ) + STREAM( u ); for( auto&& p : a ) r += show( p.persistence() ) + ( p.isUnpaired() ? "u" : "" ); return r; } );
  o.add( "counts", [&]{ return std::vector<double>{ double( a.size() ), double( a.betti() ), double( u.betti() ), double( u.dimension() ), double( a.empty() ), double( a == b ), double( a != b ), double( a == a ) }; } );
  o.add( "copy", [&]{ D d( u ); d.removeDiagonal(); d.removeUnpaired(); d.merge( a ); return d; } );
  o.add( "hausdorff", [&]{ return double( ad::hausdorffDistance<double,E>( a, b ) ); } ); o.add( "wasserstein", [&]{ return double( ad::wassersteinDistance<double,E>( a, b, 2.0 ) ); } ); o.add( "bottleneck", [&]{ return double( ad::bottleneckDistance<double,E>( a, b ) ); } ); o.add( "neighbour", [&]{ return double( ad::nearestNeighbourDistance<double,E>( a, b ) ); } ); o.add( "minimum", [&]{ return double( ad::sumOfMinimumDistances<double,E>( a, b ) ); } );
  o.add( "norms", [&]{ return std::vector<double>{ aleph::totalPersistence( a, 2.0 ), aleph::totalPersistence( a, 1.0, true ), aleph::infinityNorm( a ), aleph::pNorm( a, 2.0 ) }; } );
  o.add( "entropy", [&]{ return std::vector<double>{ aleph::persistentEntropy( a ), aleph::gridEntropy( a, 8 ), aleph::nearestNeighbourAreaEntropy( a ) }; } );
  o.add( "extraction", [&]{ std::vector<double> v, x; aleph::persistence( a, std::back_inserter( v ) ); aleph::weightedPersistence( a, std::back_inserter( x ) ); v.insert( v.end(), x.begin(), x.end() ); return v; } );
  o.add( "indicator", [&]{ return STREAM( aleph::persistenceIndicatorFunction( a ) ); } ); o.add( "envelope", [&]{ return STREAM( aleph::Envelope()( a ) ); } );
  o.add( "kernel", [&]{ return std::vector<double>{ aleph::multiScaleKernel( a, b, 1.5 ), aleph::multiScalePseudoMetric( a, b, 1.5 ) }; } );
  o.add( "embedding", [&]{ auto W = []( const D::Point& p ){ return std::atan( p.persistence() ); }; auto G = []( const D::Point& p, const D::Point& q ){ return std::exp( -std::hypot( p.x() - q.x(), p.y() - q.y() ) ); }; return std::vector<double>{ double( aleph::gaussianKernel( a, b, 1.0, 1.0, 2.0, 1.5 ) ), double( aleph::linearKernel( a, b, W, G ) ), double( aleph::pseudoMetric( a, b, W, G ) ) }; } );
  o.add( "json", [&]{ std::ostringstream s; aleph::io::writeJSON( s, a, "name" ); return s.str(); } );
  concurrently( c, o, w );
}

SECTION( function, 600, 4800 )
{
  auto f0 = aleph::persistenceIndicatorFunction( diagram( c, c.rng.range( 1, 8 ), false ) ), g0 = aleph::persistenceIndicatorFunction( diagram( c, c.rng.range( 1, 8 ), false ) ); const auto f = f0, g = g0; std::map<double,double> A, B; for( int i = 0; i < 6; i++ ) { A[ c.rng.real( 0, 9 ) ] = c.rng.real( -2, 2 ); B[ c.rng.real( 0, 9 ) ] = c.rng.real( -2, 2 ); } const aleph::math::PiecewiseLinearFunction<double> p( A.begin(), A.end() ), q( B.begin(), B.end() ); std::string w = STREAM( f ) + STREAM( p ); c.desc << w; c.nontrivial( hashString( w ) ); Ops o;
  o.add( "step-values", [&]{ std::vector<double> v; for( double x = -1; x < 11; x += 0.37 ) v.push_back( double( f( x ) ) ); return v; } );
  o.add( "step-domain", [&]{ std::vector<double> v; f.domain( std::back_inserter( v ) ); f.image( std::back_inserter( v ) ); v.push_back( double( f.max() ) ); v.push_back( double( f.sup() ) ); return v; } );
  o.add( "step-integral", [&]{ return std::vector<double>{ double( f.integral() ), double( f.integral_p( 2 ) ), double( f.indicatorFunctions().size() ) }; } );
  o.add( "step-algebra", [&]{ return STREAM( f + g ) + STREAM( f - g ) + STREAM( -f ) + STREAM( f * 2 ) + STREAM( f / 2 ) + STREAM( f + 1 ) + STREAM( f - 1 ); } );
  o.add( "step-distance", [&]{ auto h = ( f - g ).abs(); return double( h.integral() ); } );
  o.add( "step-stream", [&]{ return STREAM( f ); } ); o.add( "step-normalize", [&]{ return STREAM( aleph::math::normalize( f ) ); } );
  o.add( "linear-values", [&]{ std::vector<double> v; for( double x = -1; x < 11; x += 0.37 ) v.push_back( p( x ) ); return v; } );
  o.add( "linear-domain", [&]{ std::vector<double> v; p.domain( std::back_inserter( v ) ); p.image( std::back_inserter( v ) ); v.push_back( p.max() ); v.push_back( p.sup() ); v.push_back( p.integral() ); v.push_back( p.integral( 2 ) ); v.push_back( p == q ); v.push_back( p != q ); return v; } );
  o.add( "linear-algebra", [&]{ return STREAM( p + q ) + STREAM( p - q ) + STREAM( -p ) + STREAM( p * 2.0 ) + STREAM( p + 1.0 ) + STREAM( p - 1.0 ); } );
  o.add( "linear-abs", [&]{ auto h = p; return STREAM( h.abs() ); } ); o.add( "linear-stream", [&]{ return STREAM( p ); } );
  concurrently( c, o, w );
}

SECTION( statistics, 600, 4800 )
{
  std::vector<double> v0; for( int i = 0, n = c.rng.range( 5, 40 ); i < n; i++ ) v0.push_back( c.rng.normal() ); const std::vector<double> v = v0; std::string w = show( v ); c.desc << w; c.nontrivial( hashString( w ) ); Ops o;
  o.add( "moments", [&]{ using namespace aleph::math; return std::vector<double>{ sampleMean( v.begin(), v.end() ), sampleVariance( v.begin(), v.end() ), sampleStandardDeviation( v.begin(), v.end() ), sampleSkewness( v.begin(), v.end() ), sampleKurtosis( v.begin(), v.end() ) }; } );
  o.add( "density", [&]{ aleph::math::kernels::Gaussian k; std::vector<double> r; for( auto x : v ) { double s = 0; for( auto y : v ) s += k( x - y ); r.push_back( s ); } return r; } );
  o.add( "median", [&]{ auto u = v; return double( aleph::math::median( u.begin(), u.end() ) ); } );
  concurrently( c, o, w );
}

} // namespace
