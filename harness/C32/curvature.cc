// Curvature estimates of point clouds.
#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/TangentSpace.hh>

#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>

using namespace vp;
template <class T> using PC = aleph::containers::PointCloud<T>;

namespace
{

template <class T> PC<T> toCloud( const Points& P )
{
  PC<T> C( P.size(), P[0].size() );
  for( std::size_t i = 0; i < P.size(); i++ ) { std::vector<T> p( P[i].begin(), P[i].end() ); C.set( i, p.begin(), p.end() ); }
  return C;
}

template <class T> void roundPoints( Points& P ) { for( auto& p : P ) for( auto& x : p ) x = double( T( x ) ); }

// The curvature 2|s| of the sphere s|x|^2 + <b,x> + a = 0, |b|^2 - 4 s a = 1, that minimizes the weighted sum of
// squares over the k nearest neighbours of a point. Minimizing u'Au over u'Cu = 1 is the same as maximizing
// the eigenvalues of L^-1 C L^-T with A = LL'; everything is centred at the point. Returns a negative value
// if the minimizer is not well-defined.
template <class F> double reference( Rng& r, const Points& P, std::size_t at, std::size_t k, double moved, double relative, bool centred )
{
  using M = Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic>; auto n = P.size(), d = P[0].size(); auto m = long( d + 2 );
  std::vector<std::pair<double,std::size_t>> order; for( std::size_t j = 0; j < n; j++ ) order.push_back( { distance( P[at], P[j], Metric::Euclidean ), j } );
  std::sort( order.begin(), order.end() ); order.resize( std::min( n, k ) ); F h = order.back().first; if( !( h > 0 ) ) return -1;
  M A = M::Zero( m, m ), C = M::Identity( m, m ); C( 0, 0 ) = C( m - 1, m - 1 ) = 0; C( 0, m - 1 ) = C( m - 1, 0 ) = -2;
  for( auto& o : order )
  {
    F x = F( o.first ) / h; if( !( x < 1 ) ) continue;
    M row = M::Zero( m, 1 ); row( 0 ) = 1; F q = 0;
    for( std::size_t j = 0; j < d; j++ ) { F y = P[ o.second ][j] - ( centred ? P[at][j] : 0 ); if( moved > 0 ) y += F( r.real( -moved, moved ) ); row( long( j + 1 ) ) = y; q += y * y; }
    row( m - 1 ) = q; A += std::pow( 1 - x * x, F( 4 ) ) * row * row.transpose();
  }
  if( relative > 0 ) for( long i = 0; i < m; i++ ) for( long j = 0; j <= i; j++ ) A( i, j ) = A( j, i ) = A( i, j ) * ( 1 + F( r.real( -relative, relative ) ) );
  Eigen::LLT<M> llt( A ); if( llt.info() != Eigen::Success ) return -1;
  M L = llt.matrixL(); M B = L.template triangularView<Eigen::Lower>().solve( C ); B = L.template triangularView<Eigen::Lower>().solve( M( B.transpose() ) ); B = ( B + M( B.transpose() ) ) / 2;
  Eigen::SelfAdjointEigenSolver<M> es( B ); if( es.info() != Eigen::Success ) return -1;
  auto ev = es.eigenvalues(); if( !( ev( m - 1 ) > 0 ) || !( ev( m - 2 ) < F( 0.9 ) * ev( m - 1 ) ) ) return -1;
  M u = L.transpose().template triangularView<Eigen::Upper>().solve( M( es.eigenvectors().col( m - 1 ) ) );
  F c = ( u.transpose() * C * u )( 0, 0 ); if( !( c > 0 ) ) return -1;
  return double( 2 * std::fabs( u( m - 1 ) ) / std::sqrt( c ) );
}

// How far the curvature moves when the input moves by rounding errors; negative if the fit is not well-defined
template <class T> double sensitivity( Rng& r, const Points& P, std::size_t at, std::size_t k, double size, double base )
{
  double eps = sizeof( T ) == 4 ? 1e-6 : 1e-9, s = 0;
  for( int t = 0; t < 3; t++ )
  {
    auto a = reference<long double>( r, P, at, k, eps * size, 0, true ), b = reference<long double>( r, P, at, k, eps * size, 1e-13, false );
    if( a < 0 || b < 0 ) return -1;
    if( base < 0 ) base = a;
    s = std::max( { s, std::fabs( a - base ), std::fabs( b - base ) } );
  }
  return s;
}

double extent( const Points& P ) { double m = 1e-300; for( auto& p : P ) for( auto x : p ) m = std::max( m, std::fabs( x ) ); return m; }

std::vector<double> direction( Rng& r, std::size_t d ) { std::vector<double> v( d ); double s = 0; while( !( s > 1e-3 ) ) { s = 0; for( auto& x : v ) { x = r.normal(); s += x * x; } } for( auto& x : v ) x /= std::sqrt( s ); return v; }

template <class T> void spheres( Ctx& c )
{
  auto d = std::size_t( c.rng.range( 2, 5 ) ); auto k = std::size_t( c.rng.range( int( d ) + 4, int( d ) + ( c.thorough ? 30 : 16 ) ) );
  auto n = c.rng.chance( 0.4 ) ? k : k + c.rng.below( c.thorough ? 120 : 40 ); double r = c.rng.chance( 0.3 ) ? c.rng.pick( std::vector<double>{ 1, 2, 0.5, 10 } ) : std::exp( c.rng.real( -2, 3 ) );
  std::vector<double> centre( d ); if( c.rng.chance( 0.6 ) ) for( auto& x : centre ) x = c.rng.real( -2 * r, 2 * r );
  Points P; for( std::size_t i = 0; i < n; i++ ) { auto v = direction( c.rng, d ); for( std::size_t j = 0; j < d; j++ ) v[j] = centre[j] + r * v[j]; P.push_back( v ); }
  roundPoints<T>( P ); c.desc << "sphere of radius " << r << " in dimension " << d << ", " << n << " points, k=" << k; c.nontrivial( dig( P ) );
  aleph::geometry::TangentSpace ts; auto K = ts( toCloud<T>( P ), unsigned( k ) ); c.eq( K.size(), n, "sphere-size" ); if( K.size() != n ) return;
  double size = extent( P );
  for( std::size_t q = 0; q < std::min<std::size_t>( n, 12 ); q++ )
  {
    auto i = n <= 12 ? q : c.rng.below( n ); auto s = sensitivity<T>( c.rng, P, i, k, size, 1 / r ); if( s < 0 || s * r > 1e-3 ) continue;
    c.near( K[i] * r, 1.0, 1e-6 + 50 * s * r, "sphere", "radius " + strx( r ) + " k " + std::to_string( k ) + " point " + std::to_string( i ) + " of " + str( P ) );
  }
}

template <class T> void fits( Ctx& c )
{
  auto d = std::size_t( c.rng.range( 1, 4 ) ); auto k = std::size_t( c.rng.range( int( d ) + 4, int( d ) + ( c.thorough ? 30 : 14 ) ) ); auto n = c.rng.chance( 0.3 ) ? std::max<std::size_t>( k - c.rng.below( 3 ), d + 4 ) : k + c.rng.below( c.thorough ? 100 : 30 );
  Points P( n, std::vector<double>( d ) ); auto mode = c.rng.below( 4 ); double scale = std::exp( c.rng.real( -2, 2 ) );
  for( auto& p : P )
  {
    if( mode == 0 ) for( auto& x : p ) x = c.rng.normal();
    else if( mode == 1 ) for( auto& x : p ) x = c.rng.real( 1, 3 );
    else if( mode == 2 ) { p = direction( c.rng, d ); double f = 1 + 0.1 * c.rng.normal(); for( auto& x : p ) x = 0.5 + f * x; }    // noisy sphere
    else { double s = 0; for( std::size_t j = 0; j + 1 < d; j++ ) { p[j] = c.rng.real( -1, 1 ); s += ( j % 2 ? -1 : 1 ) * p[j] * p[j]; } p[ d - 1 ] = s + 0.05 * c.rng.normal(); }   // paraboloids and saddles
    for( auto& x : p ) x *= scale;
  }
  roundPoints<T>( P ); c.desc << n << " points in dimension " << d << ", k=" << k; c.nontrivial( dig( P ) );
  aleph::geometry::TangentSpace ts; auto K = ts( toCloud<T>( P ), unsigned( k ) ); c.eq( K.size(), n, "fit-size" ); if( K.size() != n ) return;
  double size = extent( P );
  std::vector<double> e( n, -1 ), t( n, -1 );
  for( std::size_t q = 0; q < std::min<std::size_t>( n, 12 ); q++ )
  {
    auto i = n <= 12 ? q : c.rng.below( n ); e[i] = reference<long double>( c.rng, P, i, k, 0, 0, true ); if( e[i] < 0 ) continue;
    auto s = sensitivity<T>( c.rng, P, i, k, size, e[i] ); if( s < 0 || s * scale > 1e-3 ) continue;
    t[i] = ( 1e-6 + 50 * s * scale ) / scale;
    c.near( K[i], e[i], t[i], "fit", "k " + std::to_string( k ) + " point " + std::to_string( i ) + " of " + str( P ) );
  }
  // Shuffling, moving, reflecting and scaling the points
  std::vector<std::size_t> p( n ); for( std::size_t i = 0; i < n; i++ ) p[i] = i; c.rng.shuffle( p );
  double f = c.rng.pick( std::vector<double>{ 1, 2, 0.25 } ); std::vector<double> shift( d ), sign( d ); for( std::size_t j = 0; j < d; j++ ) { shift[j] = c.rng.chance( 0.5 ) ? 0 : c.rng.real( -1, 1 ) * size; sign[j] = c.rng.chance( 0.5 ) ? 1 : -1; }
  Points Q( n, std::vector<double>( d ) ); for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < d; j++ ) Q[i][j] = f * ( sign[j] * P[ p[i] ][ d - 1 - j ] + shift[j] );
  roundPoints<T>( Q ); auto K2 = ts( toCloud<T>( Q ), unsigned( k ) ); c.eq( K2.size(), n, "motion-size" ); if( K2.size() != n ) return;
  for( std::size_t i = 0; i < n; i++ ) if( t[ p[i] ] > 0 )
  {
    auto s = sensitivity<T>( c.rng, Q, i, k, extent( Q ), e[ p[i] ] / f ); if( s < 0 || s * scale * f > 1e-3 ) continue;
    c.near( K2[i] * f, e[ p[i] ], t[ p[i] ] + 50 * s * f, "motion", "k " + std::to_string( k ) + " point " + std::to_string( i ) + " of " + str( Q ) );
  }
}

// Points of a hyperplane, duplicates, few points: one value per point
template <class T> void degenerate( Ctx& c )
{
  auto d = std::size_t( c.rng.range( 1, 5 ) ), n = std::size_t( c.rng.range( 1, 20 ) ); auto k = unsigned( c.rng.range( 1, int( n ) + 3 ) );
  auto P = randomPoints( c.rng, n, d ); c.desc << "k=" << k << " of " << str( P ); c.nontrivial( dig( P ) );
  aleph::geometry::TangentSpace ts; auto K = ts( toCloud<T>( P ), k ); c.eq( K.size(), n, "degenerate-size" );
  for( auto x : K ) c.expect( !( x < 0 ), "negative", str( P ) );
}

template <class T> void planes( Ctx& c )
{
  auto d = std::size_t( c.rng.range( 2, 4 ) ); auto k = std::size_t( c.rng.range( int( d ) * 3 + 4, int( d ) * 3 + 16 ) ), n = k + c.rng.below( 20 );
  auto v = direction( c.rng, d ); double o = c.rng.real( -1, 1 ); Points P;
  for( std::size_t i = 0; i < n; i++ ) { std::vector<double> p( d ); double s = -o; for( std::size_t j = 0; j < d; j++ ) { p[j] = c.rng.real( -1, 1 ); s += p[j] * v[j]; } for( std::size_t j = 0; j < d; j++ ) p[j] -= s * v[j]; P.push_back( p ); }
  roundPoints<T>( P ); c.desc << n << " points of a plane in dimension " << d << ", k=" << k; c.nontrivial( dig( P ) );
  aleph::geometry::TangentSpace ts; auto K = ts( toCloud<T>( P ), unsigned( k ) ); c.eq( K.size(), n, "plane-size" ); if( K.size() != n ) return;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto s = sensitivity<T>( c.rng, P, i, k, extent( P ), 0 ); if( s < 0 || s > 1e-3 ) continue;
    c.near( K[i], 0, 1e-3 + 50 * s, "plane", "k " + std::to_string( k ) + " point " + std::to_string( i ) + " of " + str( P ) );
  }
}

} // namespace

SECTION( sphere_double, 500, 4000 ) { spheres<double>( c ); }
SECTION( sphere_float, 300, 2500 ) { spheres<float>( c ); }
SECTION( fit_double, 500, 4000 ) { fits<double>( c ); }
SECTION( fit_float, 300, 2500 ) { fits<float>( c ); }
SECTION( plane_double, 150, 1200 ) { planes<double>( c ); }
SECTION( degenerate_double, 300, 3000 ) { degenerate<double>( c ); }
SECTION( degenerate_float, 200, 2000 ) { degenerate<float>( c ); }
