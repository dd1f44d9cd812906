// Samplers, landmark selection and random graphs. The library seeds its
// generators itself, so the monitors check contracts that hold for every
// draw, plus frequencies with bounds of nine standard deviations.
#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/SphereSampling.hh>
#include <aleph/geometry/TorusSampling.hh>
#include <aleph/geometry/WitnessComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/topology/RandomGraph.hh>

using namespace vp;

namespace
{

void frequency( Ctx& c, std::size_t hits, std::size_t n, double p, const char* key, const std::string& w )
{
  double sd = std::sqrt( double( n ) * p * ( 1 - p ) ); c.expectf( std::fabs( double( hits ) - double( n ) * p ) <= 9 * sd + 12, key, [&]( std::ostream& o ){ o << w << ": " << hits << " of " << n << ", expected probability " << p; } );
}

template <class T> void sphere( Ctx& c )
{
  unsigned n = unsigned( c.rng.chance( 0.2 ) ? c.rng.range( 0, 3 ) : c.rng.range( 0, 60 ) ); T r = T( c.rng.pick( std::vector<double>{ 1, 0.001, 1000, c.rng.real( 0.1, 10 ) } ) ), x = 0, y = 0, z = 0; bool moved = c.rng.chance( 0.6 ); if( moved ) { x = T( c.rng.real( -20, 20 ) ); y = T( c.rng.real( -20, 20 ) ); z = T( c.rng.real( -20, 20 ) ); }
  std::string w = std::to_string( n ) + " points, radius " + strx( r ) + ", centre " + strx( x ) + " " + strx( y ) + " " + strx( z ); c.desc << w; c.nontrivial( combine( n, hashDouble( r * 3 + x ) ) );
  auto a = aleph::geometry::sphereSampling<T>( n ); c.eq( a.size(), std::size_t( n ), "angles", w ); for( auto& p : a ) c.expect( p.first >= 0 && p.first <= T( 6.283186 ) && p.second >= 0 && p.second <= T( 3.141593 ), "angle-range", w );
  auto P = moved ? aleph::geometry::makeSphere( a, r, x, y, z ) : aleph::geometry::makeSphere( a, r ); c.eq( P.size(), std::size_t( n ), "size", w ); if( n ) c.eq( P.dimension(), std::size_t( 3 ), "dimension", w );
  double tol = ( sizeof( T ) == 4 ? 2e-6 : 1e-13 ) * ( double( r ) + 40 );
  for( std::size_t i = 0; i < n; i++ ) { auto p = P[i]; double dx = double( p[0] ) - x, dy = double( p[1] ) - y, dz = double( p[2] ) - z; c.near( std::sqrt( dx * dx + dy * dy + dz * dz ), double( r ), tol, "radius", w ); double t = a[i].first, f = a[i].second; c.near( dx, r * std::cos( t ) * std::sin( f ), tol, "x", w ); c.near( dy, r * std::sin( t ) * std::sin( f ), tol, "y", w ); c.near( dz, r * std::cos( f ), tol, "z", w ); }
}

template <class T> void torus( Ctx& c )
{
  unsigned n = unsigned( c.rng.chance( 0.2 ) ? c.rng.range( 0, 3 ) : c.rng.range( 0, 60 ) ); T R = T( c.rng.real( 0.5, 20 ) ), r = T( R * c.rng.pick( std::vector<double>{ 0.01, 0.5, 1.0, c.rng.real( 0.05, 1 ) } ) );
  std::string w = std::to_string( n ) + " points, radii " + strx( R ) + " " + strx( r ); c.desc << w; c.nontrivial( combine( n, hashDouble( R * 3 + r ) ) );
  auto a = aleph::geometry::torusRejectionSampling( R, r, n ); c.eq( a.size(), std::size_t( n ), "angles", w ); for( auto& p : a ) c.expect( p.first >= 0 && p.first <= T( 6.283186 ) && p.second >= 0 && p.second <= T( 6.283186 ), "angle-range", w );
  auto P = aleph::geometry::makeTorus( a, R, r ); c.eq( P.size(), std::size_t( n ), "size", w ); if( n ) c.eq( P.dimension(), std::size_t( 3 ), "dimension", w );
  double tol = ( sizeof( T ) == 4 ? 2e-6 : 1e-13 ) * 50;
  for( std::size_t i = 0; i < n; i++ ) { auto p = P[i]; double q = std::hypot( double( p[0] ), double( p[1] ) ) - R; c.near( std::hypot( q, double( p[2] ) ), double( r ), tol, "tube", w ); double t = a[i].first, s = a[i].second, m = R + r * std::cos( t ); c.near( double( p[0] ), m * std::cos( s ), tol, "x", w ); c.near( double( p[1] ), m * std::sin( s ), tol, "y", w ); c.near( double( p[2] ), r * std::sin( t ), tol, "z", w ); }
}

SECTION( sphere, 3000, 40000 ) { if( c.k % 2 ) sphere<float>( c ); else sphere<double>( c ); }
SECTION( torus, 3000, 40000 ) { if( c.k % 2 ) torus<float>( c ); else torus<double>( c ); }

SECTION( distribution, 200, 2000 )
{
  // Points are uniform with respect to the area of the surface
  unsigned n = 4000; c.nontrivial( combine( 77, c.k ) );
  if( c.k % 2 ) { auto P = aleph::geometry::makeSphere( aleph::geometry::sphereSampling<double>( n ), 1.0 ); for( int axis = 0; axis < 3; axis++ ) { double h = c.rng.real( -0.9, 0.9 ); std::size_t hits = 0; for( std::size_t i = 0; i < n; i++ ) hits += P[i][std::size_t( axis )] < h; frequency( c, hits, n, ( h + 1 ) / 2, "sphere", "axis " + std::to_string( axis ) + " below " + strx( h ) ); } c.desc << "sphere"; }
  else { double q = c.rng.real( 0.1, 1 ), R = c.rng.real( 1, 5 ), t = c.rng.real( 0.6, 5.6 ), s = c.rng.real( 0.6, 5.6 ); auto a = aleph::geometry::torusRejectionSampling( R, q * R, n ); std::size_t h1 = 0, h2 = 0, h3 = 0; double p1 = ( t + q * std::sin( t ) ) / ( 2 * M_PI ), p2 = s / ( 2 * M_PI ); for( auto& p : a ) { h1 += p.first < t; h2 += p.second < s; h3 += p.first < t && p.second < s; } std::string w = "ratio " + strx( q ) + " angles " + strx( t ) + " " + strx( s ); c.desc << w; frequency( c, h1, n, p1, "torus-tube", w ); frequency( c, h2, n, p2, "torus-circle", w ); frequency( c, h3, n, p1 * p2, "torus-both", w ); }
}

SECTION( landmarks, 4000, 60000 )
{
  using C = aleph::containers::PointCloud<double>; std::size_t n = std::size_t( c.rng.chance( 0.1 ) ? 0 : c.rng.range( 1, 25 ) ), d = std::size_t( c.rng.range( 1, 5 ) ); Points P = randomPoints( c.rng, n, d ); if( c.rng.chance( 0.1 ) ) for( auto& p : P ) p = P[0]; C cloud( n, d ); for( std::size_t i = 0; i < n; i++ ) cloud.set( i, P[i].begin(), P[i].end() );
  std::size_t k = std::size_t( c.rng.range( 0, int( n ) ) ); std::string w = std::to_string( k ) + " landmarks of " + str( P ); c.desc << w; c.nontrivial( combine( hashString( w ), k ) ); bool euclid = c.rng.chance( 0.6 ); std::vector<std::size_t> L; using E = aleph::geometry::distances::Euclidean<double>; using H = aleph::geometry::distances::Manhattan<double>;
  if( euclid ) aleph::geometry::generateMaxMinLandmarks<E>( cloud, k, std::back_inserter( L ) ); else aleph::geometry::generateMaxMinLandmarks( cloud, k, std::back_inserter( L ), H() );
  c.eq( L.size(), k, "count", w ); std::set<std::size_t> S( L.begin(), L.end() ); c.eq( S.size(), L.size(), "distinct", w + " reported " + str( L ) ); for( auto i : L ) c.expect( i < n, "range", w + " reported " + str( L ) );
  if( !S.empty() && *S.rbegin() < n ) for( std::size_t i = 1; i < L.size(); i++ )
  {
    auto far = [&]( std::size_t x ){ double m = 1e300; for( std::size_t j = 0; j < i; j++ ) m = std::min( m, distance( P[x], P[L[j]], euclid ? Metric::Euclidean : Metric::Manhattan ) ); return m; }; double best = 0; for( std::size_t x = 0; x < n; x++ ) best = std::max( best, far( x ) ); c.expect( far( L[i] ) >= best * ( 1 - 1e-9 ), "farthest", w + " reported " + str( L ) + ", position " + std::to_string( i ) );
  }
  c.throws( [&]{ std::vector<std::size_t> o; aleph::geometry::generateMaxMinLandmarks<E>( cloud, n + 1, std::back_inserter( o ) ); }, "too-many", w );
}

SECTION( draws, 3000, 30000 )
{
  // Random landmarks
  unsigned n = unsigned( c.rng.range( 0, 30 ) ), k = unsigned( c.rng.range( 0, int( n ) ) ); std::vector<unsigned> L; std::string w = std::to_string( k ) + " of " + std::to_string( n ); c.desc << w; c.nontrivial( combine( n * 100 + k, c.k ) ); aleph::geometry::generateRandomLandmarks( n, k, std::back_inserter( L ) ); c.eq( L.size(), std::size_t( k ), "count", w ); std::set<unsigned> S( L.begin(), L.end() ); c.eq( S.size(), L.size(), "distinct", w + " reported " + str( L ) ); for( auto i : L ) c.expect( i < n, "range", w + " reported " + str( L ) );
  if( k == n ) { std::set<unsigned> all; for( unsigned i = 0; i < n; i++ ) all.insert( i ); c.expect( S == all, "all", w ); }
  c.throws( [&]{ std::vector<unsigned> o; aleph::geometry::generateRandomLandmarks( n, n + 1, std::back_inserter( o ) ); }, "too-many", w );
  if( c.k % 50 == 0 ) { std::vector<std::size_t> f( 6 ), g( 6 ); for( int t = 0; t < 3000; t++ ) { std::vector<int> o; aleph::geometry::generateRandomLandmarks( 6, 2, std::back_inserter( o ) ); for( auto i : o ) f.at( std::size_t( i ) )++; g.at( std::size_t( o.at( 0 ) ) )++; } for( std::size_t i = 0; i < 6; i++ ) { frequency( c, f[i], 3000, 1.0 / 3, "chosen", "index " + std::to_string( i ) ); frequency( c, g[i], 3000, 1.0 / 6, "first", "index " + std::to_string( i ) ); } }
}

template <class K> std::size_t graph( Ctx& c, const K& G, unsigned n, const std::string& w, std::map<std::pair<unsigned,unsigned>,double>& E )
{
  std::vector<unsigned> V;
  for( auto&& s : G )
  {
    std::vector<unsigned> v( s.begin(), s.end() ); std::sort( v.begin(), v.end() ); c.expect( v.size() == 1 || v.size() == 2, "dimension", w );
    if( v.size() == 1 ) { V.push_back( v[0] ); c.eq( double( s.data() ), 0.0, "vertex-weight", w ); }
    if( v.size() == 2 ) { c.expect( v[0] < v[1] && v[1] < n, "endpoints", w ); c.expect( std::count( V.begin(), V.end(), v[0] ) == 1 && std::count( V.begin(), V.end(), v[1] ) == 1, "filtration-order", w ); c.expect( E.insert( { { v[0], v[1] }, double( s.data() ) } ).second, "duplicate-edge", w ); }
  }
  std::sort( V.begin(), V.end() ); std::vector<unsigned> want; for( unsigned i = 0; i < n; i++ ) want.push_back( i ); c.expect( V == want, "vertices", w + " reported " + str( V ) ); c.eq( G.size(), V.size() + E.size(), "size", w ); return E.size();
}

SECTION( graphs, 2500, 25000 )
{
  unsigned n = unsigned( c.rng.range( 0, 30 ) ); double p = c.rng.pick( std::vector<double>{ 0, 1, c.rng.real(), 1e-9, 1 - 1e-9, -0.5, 1.5 } ); std::string w = std::to_string( n ) + " vertices, probability " + strx( p ); c.desc << w; c.nontrivial( combine( n, hashDouble( p ) ) ); std::map<std::pair<unsigned,unsigned>,double> E; auto G = aleph::topology::generateErdosRenyiGraph( n, p ); auto m = graph( c, G, n, w, E ); std::size_t all = n ? std::size_t( n ) * ( n - 1 ) / 2 : 0; if( p <= 0 ) c.eq( m, std::size_t( 0 ), "no-edges", w ); if( p >= 1 ) c.eq( m, all, "all-edges", w ); for( auto& e : E ) c.eq( e.second, 0.0, "unweighted", w );
  if( p > 0 && p < 1 ) frequency( c, m, all, p, "edges", w );
  double q = c.rng.pick( std::vector<double>{ 0, c.rng.real( 0, 0.95 ), 0.5, -1, 0.999 } ); std::map<std::pair<unsigned,unsigned>,double> F; std::string u = w + ", weights " + strx( q ); auto H = aleph::topology::generateWeightedRandomGraph( n, q ); auto mw = graph( c, H, n, u, F ); if( q <= 0 ) c.eq( mw, std::size_t( 0 ), "no-weighted-edges", u ); else frequency( c, mw, all, q, "weighted-edges", u );
  double prev = 0; for( auto&& s : H ) { c.expect( double( s.data() ) >= prev, "weight-order", u ); prev = double( s.data() ); } for( auto& e : F ) c.expect( e.second >= 1, "weight-range", u );
}

SECTION( probabilities, 60, 600 )
{
  // Every pair of vertices is equally likely; weights are geometric
  double p = c.rng.real( 0.1, 0.9 ); unsigned n = unsigned( c.rng.range( 3, 6 ) ); std::size_t rounds = 1500; std::map<std::pair<unsigned,unsigned>,std::size_t> f, g, g2; std::size_t all = 0, two = 0; std::string w = std::to_string( n ) + " vertices, probability " + strx( p ); c.desc << w; c.nontrivial( combine( n, hashDouble( p ) ) );
  for( std::size_t t = 0; t < rounds; t++ ) { for( auto&& s : aleph::topology::generateErdosRenyiGraph( n, p ) ) if( s.dimension() == 1 ) f[ std::minmax( *s.begin(), *s.rbegin() ) ]++; for( auto&& s : aleph::topology::generateWeightedRandomGraph( n, p ) ) if( s.dimension() == 1 ) { g[ std::minmax( *s.begin(), *s.rbegin() ) ]++; all++; if( s.data() >= 2 ) { two++; g2[ std::minmax( *s.begin(), *s.rbegin() ) ]++; } } }
  for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ ) { std::string e = w + " edge " + std::to_string( i ) + " " + std::to_string( j ); frequency( c, f[{ i, j }], rounds, p, "edge", e ); frequency( c, g[{ i, j }], rounds, p, "weighted-edge", e ); frequency( c, g2[{ i, j }], rounds, p * p, "heavy-edge", e ); } frequency( c, two, all, p, "weights", w );
}

} // namespace
