#include "bridge.hh"
#include "dgm.hh"

#include <aleph/persistenceDiagrams/Distances.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>
#include <aleph/persistenceDiagrams/distances/detail/Matrix.hh>
#include <aleph/persistenceDiagrams/distances/detail/Munkres.hh>

using namespace vp;
namespace ad = aleph::distances;
template <class T> using PD = aleph::PersistenceDiagram<T>;

namespace
{

using P2 = std::pair<double,double>;

struct Max   { double operator()( P2 p, P2 q ) const { return std::max( std::fabs( p.first - q.first ), std::fabs( p.second - q.second ) ); } };
struct Taxi  { double operator()( P2 p, P2 q ) const { return std::fabs( p.first - q.first ) + std::fabs( p.second - q.second ); } };
struct Eucl  { double operator()( P2 p, P2 q ) const { return std::hypot( p.first - q.first, p.second - q.second ); } };

// The same metrics with the interface a client has to provide
template <class T, class F> struct Ground
{
  template <class Point> T operator()( const Point& p, const Point& q ) const { return static_cast<T>( F()( P2( p.x(), p.y() ), P2( q.x(), q.y() ) ) ); }
};

template <class T> PD<T> make( const Pts& A ) { PD<T> D; for( auto& p : A ) D.add( static_cast<T>( p.first ), static_cast<T>( p.second ) ); return D; }

template <class T> Pts rounded( Pts A ) { for( auto& p : A ) { p.first = static_cast<T>( p.first ); p.second = static_cast<T>( p.second ); } return A; }

double magnitude( const Pts& A ) { double m = 1; for( auto& p : A ) m = std::max( m, std::max( std::fabs( p.first ), std::fabs( p.second ) ) ); return m; }

template <class T> double tol() { return std::is_same<T,float>::value ? 2e-5 : 1e-11; }

std::pair<std::size_t,std::size_t> sizes( Ctx& c, int big )
{
  int a = c.rng.range( 0, 7 ), n = c.rng.range( 0, 6 ), m = c.rng.range( 0, 6 );
  if( a == 0 ) n = 0; if( a == 1 ) m = 0; if( a == 2 ) m = n; if( a == 3 ) { n = c.rng.range( 0, 1 ); m = c.rng.range( 0, 2 ); } if( a == 4 ) n = c.rng.range( 0, big );
  if( c.rng.chance( 0.5 ) ) std::swap( n, m );
  return { std::size_t( n ), std::size_t( m ) };
}

// A second diagram that is related to the first one
Pts related( Rng& r, const Pts& A, std::size_t m )
{
  if( r.chance( 0.5 ) || A.empty() ) return randomDiagram( r, m );
  Pts B = A; r.shuffle( B ); double s = r.chance( 0.5 ) ? 0.01 : 1;
  for( auto& p : B ) if( r.chance( 0.6 ) ) { p.first += s * r.range( -2, 2 ); p.second += s * r.range( -2, 2 ); }
  while( B.size() > m ) B.pop_back();
  return B;
}

Pts withDiagonal( Rng& r, Pts A ) { int n = r.range( 1, 4 ); for( int i = 0; i < n; i++ ) { double x = r.range( -3, 6 ) + ( r.chance( 0.5 ) ? 0.5 : 0 ); A.push_back( { x, x } ); } r.shuffle( A ); return A; }

// Points of the input must not have been changed by a call
template <class T> void unchanged( Ctx& c, const PD<T>& D, const Pts& A, const char* key )
{
  bool ok = D.size() == A.size(); std::size_t i = 0;
  if( ok ) for( auto&& p : D ) { ok = ok && p.x() == static_cast<T>( A[i].first ) && p.y() == static_cast<T>( A[i].second ); ++i; }
  c.expect( ok, key );
}

// The optimal matching pairs all points of one diagram with those of the other
// one because the diagonal is too far away (or there is only one diagram).
template <class F> bool withoutDiagonal( const Pts& A, const Pts& B, F f )
{
  if( B.empty() ) return true;
  if( A.size() != B.size() ) return false;
  Cost a( A.size(), std::vector<double>( A.size() ) ); for( std::size_t i = 0; i < A.size(); i++ ) for( std::size_t j = 0; j < B.size(); j++ ) a[i][j] = f( A[i], B[j] );
  double t = bottleneckCost( a ); for( auto* X : { &A, &B } ) for( auto& p : *X ) { double u = ( p.first + p.second ) / 2; if( f( p, P2( u, u ) ) < t ) return false; }
  return true;
}

template <class T, class F, class G> void bottleneck( Ctx& c )
{
  auto s = sizes( c, 25 ); bool far = c.k % 8 < 4; if( far ) s.second = s.first; double lift = far ? c.rng.pick( std::vector<double>{ 5, 40, 400 } ) : 0;
  auto raise = [&] ( Pts X ) { for( auto& p : X ) ( p.first <= p.second ? p.second : p.first ) += lift; return rounded<T>( X ); };
  auto A = randomDiagram( c.rng, s.first ), B = related( c.rng, A, s.second ), C = related( c.rng, B, far ? s.first : sizes( c, 8 ).first ); A = raise( A ); B = raise( B ); C = raise( C );
  auto D = make<T>( A ), E = make<T>( B ), H = make<T>( C ); double e = tol<T>() * std::max( magnitude( A ), magnitude( B ) ), inf = std::numeric_limits<double>::infinity();
  bool ab = withoutDiagonal( A, B, F() ), ba = withoutDiagonal( B, A, F() ); std::string known = "bottleneck-uses-diagonal";
  c.desc << ( ab ? "no diagonal " : "" ) << "A " << str( A ) << " B " << str( B ); if( A.size() + B.size() > 1 ) c.nontrivial( combine( dig( A ), dig( B ) ) );
  double de = ad::bottleneckDistance<T,G>( D, E ), ed = ad::bottleneckDistance<T,G>( E, D ); unchanged( c, D, A, "bottleneck-input" ); unchanged( c, E, B, "bottleneck-input" );
  double best = bottleneckCost( diagramCost( A, B, F(), inf ) ); c.expect( de >= 0 && std::isfinite( de ), "bottleneck-finite" );
  c.near( de, best, e, ab ? "bottleneck-optimum" : known ); c.near( ed, best, e, ba ? "bottleneck-optimum" : known, "exchanged" );
  auto A2 = A; c.rng.shuffle( A2 ); c.near( ad::bottleneckDistance<T,G>( D, make<T>( A2 ) ), 0, 0, "bottleneck-zero" );
  double dh = ad::bottleneckDistance<T,G>( D, H ), eh = ad::bottleneckDistance<T,G>( E, H ); c.expect( dh <= de + eh + e * ( 1 + de + eh ), ab && withoutDiagonal( A, C, F() ) && withoutDiagonal( B, C, F() ) ? "bottleneck-triangle" : known, "triangle" );
  auto A3 = withDiagonal( c.rng, A ), B3 = withDiagonal( c.rng, B );
  c.near( ad::bottleneckDistance<T,G>( make<T>( A3 ), E ), best, e, known, "diagonal points added" ); c.near( ad::bottleneckDistance<T,G>( D, make<T>( B3 ) ), best, e, known, "diagonal points added" );
}

template <class T, class F, class G> void wasserstein( Ctx& c )
{
  auto s = sizes( c, 20 ); if( c.k % 1500 == 44 || c.k % 1500 == 45 ) s = { std::size_t( c.rng.range( 20, 45 ) ), std::size_t( c.rng.range( 20, 45 ) ) }; auto A = rounded<T>( randomDiagram( c.rng, s.first ) ), B = rounded<T>( related( c.rng, A, s.second ) ), C = rounded<T>( related( c.rng, B, sizes( c, 8 ).first ) );
  double p = c.rng.pick( std::vector<double>{ 1, 1, 2, 2, 3, 1.5 } ); T power = static_cast<T>( p );
  if( std::is_same<T,float>::value ) for( auto* X : { &A, &B, &C } ) for( auto& q : *X ) { q.first = static_cast<T>( std::fmod( q.first, 8 ) ); q.second = static_cast<T>( std::fmod( q.second, 8 ) ); }
  c.desc << "A " << str( A ) << " B " << str( B ) << " power " << p; if( A.size() + B.size() > 1 ) c.nontrivial( combine( dig( A ), combine( dig( B ), dig( p ) ) ) );
  auto D = make<T>( A ), E = make<T>( B ), H = make<T>( C );
  auto f = [&] ( P2 x, P2 y ) { return std::pow( F()( x, y ), p ); };
  double big = std::pow( std::max( magnitude( A ), magnitude( B ) ), std::min( p, 1.0 ) ); for( auto& x : A ) for( auto& y : B ) big = std::max( big, f( x, y ) ); for( auto* X : { &A, &B } ) for( auto& x : *X ) big = std::max( big, f( x, P2( ( x.first + x.second ) / 2, ( x.first + x.second ) / 2 ) ) );
  auto expected = [&] ( const Pts& X, const Pts& Y ) { return std::pow( assignmentCost( diagramCost( X, Y, f, 1e6 * ( 1 + big ) ) ), 1 / p ); };
  // The p-th root amplifies rounding errors of costs close to zero; only the
  // p-th power is compared for them
  auto same = [&] ( double a, double b, const char* key ) { double e = tol<T>() * 10 * ( 1 + big ) * double( 1 + A.size() + B.size() ); c.expectf( std::isfinite( a ) && a >= 0 && std::fabs( std::pow( a, p ) - std::pow( b, p ) ) <= e + tol<T>() * std::pow( b, p ), key, [&]( std::ostream& o ) { o << "actual " << a << " expected " << b; } ); };
  double de = p == 1 && c.rng.chance( 0.5 ) ? ad::wassersteinDistance<T,G>( D, E ) : ad::wassersteinDistance<T,G>( D, E, power ); unchanged( c, D, A, "wasserstein-input" ); unchanged( c, E, B, "wasserstein-input" );
  same( de, expected( A, B ), "wasserstein-optimum" ); same( ad::wassersteinDistance<T,G>( E, D, power ), de, "wasserstein-symmetric" );
  auto A2 = A; c.rng.shuffle( A2 ); same( ad::wassersteinDistance<T,G>( D, make<T>( A2 ), power ), 0, "wasserstein-zero" );
  double dh = ad::wassersteinDistance<T,G>( D, H, power ), eh = ad::wassersteinDistance<T,G>( E, H, power );
  c.expect( dh <= de + eh + ( p == 1 ? 1 : 300 ) * tol<T>() * 100 * ( 1 + std::pow( big, 1 / p ) + de + eh ), "wasserstein-triangle", strx( dh ) + " > " + strx( de ) + " + " + strx( eh ) );
  same( ad::wassersteinDistance<T,G>( make<T>( withDiagonal( c.rng, A ) ), E, power ), de, "wasserstein-diagonal" ); same( ad::wassersteinDistance<T,G>( D, make<T>( withDiagonal( c.rng, B ) ), power ), de, "wasserstein-diagonal" );
  E.setDimension( 3 ); c.throws( [&] { ad::wassersteinDistance<T,G>( D, E, power ); }, "wasserstein-dimension" );
}

template <class F> double nearest( P2 p, const Pts& B, F f ) { double d = std::numeric_limits<double>::infinity(); for( auto& q : B ) d = std::min( d, f( p, q ) ); return d; }

template <class T, class F, class G> void pointsets( Ctx& c )
{
  auto s = sizes( c, 40 ); auto A = rounded<T>( randomDiagram( c.rng, s.first ) ), B = rounded<T>( related( c.rng, A, s.second ) ), C = rounded<T>( randomDiagram( c.rng, std::size_t( c.rng.range( 1, 5 ) ) ) );
  c.desc << "A " << str( A ) << " B " << str( B ); if( !A.empty() && !B.empty() ) c.nontrivial( combine( dig( A ), dig( B ) ) );
  auto D = make<T>( A ), E = make<T>( B ), H = make<T>( C ); F f; double e = tol<T>() * std::max( magnitude( A ), magnitude( B ) ), h = 0, sum = 0;
  for( auto& p : A ) { double d = nearest( p, B, f ); h = std::max( h, d ); sum += d; } for( auto& p : B ) { double d = nearest( p, A, f ); h = std::max( h, d ); sum += d; }
  sum /= 2; bool one = A.empty() != B.empty(), none = A.empty() && B.empty();
  c.near( ad::hausdorffDistance<T,G>( D, E ), h, e, "hausdorff" ); c.near( ad::hausdorffDistance( E, D, G() ), h, e, "hausdorff-symmetric" );
  c.near( ad::sumOfMinimumDistances<T,G>( D, E ), sum, e, "minimum-sum" ); c.near( ad::sumOfMinimumDistances( E, D, G() ), sum, e, "minimum-sum-symmetric" );
  double nn = ad::nearestNeighbourDistance<T,G>( D, E ), nn2 = ad::nearestNeighbourDistance( E, D, G() );
  if( !one ) { c.near( nn, sum, e, "nearest-neighbour" ); c.near( nn2, sum, e, "nearest-neighbour-symmetric" ); }
  auto A2 = A; c.rng.shuffle( A2 ); auto D2 = make<T>( A2 );
  c.near( ad::hausdorffDistance<T,G>( D, D2 ), 0, 0, "hausdorff-zero" ); c.near( ad::sumOfMinimumDistances<T,G>( D, D2 ), 0, 0, "minimum-sum-zero" ); c.near( ad::nearestNeighbourDistance<T,G>( D, D2 ), 0, 0, "nearest-neighbour-zero" );
  if( !one && !none ) { double a = ad::hausdorffDistance<T,G>( D, E ), b = ad::hausdorffDistance<T,G>( E, H ), d = ad::hausdorffDistance<T,G>( D, H ); c.expect( d <= a + b + e * ( 1 + a + b ), "hausdorff-triangle" ); }
  unchanged( c, D, A, "pointset-input" ); unchanged( c, E, B, "pointset-input" );
}

template <class T> void munkres( Ctx& c )
{
  std::size_t n = std::size_t( c.rng.range( 0, c.k % 500 == 13 ? 70 : c.k % 9 == 0 ? 30 : 7 ) ); int mode = c.rng.range( 0, 4 ); Cost a( n, std::vector<double>( n ) ); ad::detail::Matrix<T> M( n );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ )
  {
    double x = mode == 0 ? c.rng.range( 0, 3 ) : mode == 1 ? c.rng.range( 0, 100 ) : mode == 2 ? double( ( i + 1 ) * ( j + 1 ) ) : mode == 3 ? c.rng.range( -20, 20 ) : std::is_integral<T>::value ? c.rng.range( 0, 1 ) : c.rng.real( 0, 10 );
    M( i, j ) = static_cast<T>( x ); a[i][j] = static_cast<double>( M( i, j ) );
  }
  c.desc << "matrix " << str( a ); if( n > 1 ) c.nontrivial( dig( a ) );
  ad::detail::Munkres<T> solver( M ); auto R = solver(); c.eq( R.n(), n, "assignment-size" );
  std::vector<std::size_t> rows( n ), cols( n ); double cost = 0; std::size_t total = 0;
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) if( R( i, j ) == T() ) { rows[i]++; cols[j]++; cost += a[i][j]; ++total; }
  bool ok = total == n; for( std::size_t i = 0; i < n; i++ ) ok = ok && rows[i] == 1 && cols[i] == 1; c.expect( ok, "assignment-perfect" );
  double best = assignmentCost( a ); c.near( cost, best, tol<T>() * 10, "assignment-optimum" ); c.near( solver.cost( M ), best, tol<T>() * 10, "assignment-cost" );
  std::vector<std::pair<std::size_t,std::size_t>> match; solver.matching( std::back_inserter( match ) ); ok = match.size() == n; double mc = 0; for( auto& p : match ) { ok = ok && p.first < n && p.second < n && R( p.first, p.second ) == T(); if( ok ) mc += a[p.first][p.second]; }
  c.expect( ok, "matching-perfect" ); c.near( mc, best, tol<T>() * 10, "matching-cost" );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) c.expect( double( M( i, j ) ) == a[i][j], "assignment-input" );
  auto copy = M; if( n ) copy( 0, 0 ) = static_cast<T>( copy( 0, 0 ) + 1 ); if( n ) c.expect( double( M( 0, 0 ) ) == a[0][0], "matrix-copy" ); auto moved = std::move( copy ); c.eq( moved.n(), n, "matrix-move" ); copy = M; bool same = true; for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) same = same && copy( i, j ) == M( i, j ); c.expect( same, "matrix-assign" );
}

template <class T> using Def = aleph::geometry::distances::InfinityDistance<T>;

} // namespace

SECTION( bottleneck, 10000, 150000 )
{
  switch( c.k % 4 ) { case 0: bottleneck<double,Max,Def<double>>( c ); break; case 1: bottleneck<float,Max,Def<float>>( c ); break; case 2: bottleneck<double,Taxi,Ground<double,Taxi>>( c ); break; default: bottleneck<double,Eucl,Ground<double,Eucl>>( c ); }
}

SECTION( wasserstein, 12000, 200000 )
{
  switch( c.k % 4 ) { case 0: wasserstein<double,Max,Def<double>>( c ); break; case 1: wasserstein<float,Max,Def<float>>( c ); break; case 2: wasserstein<double,Taxi,Ground<double,Taxi>>( c ); break; default: wasserstein<double,Eucl,Ground<double,Eucl>>( c ); }
}

SECTION( pointsets, 10000, 100000 )
{
  switch( c.k % 4 ) { case 0: pointsets<double,Max,Def<double>>( c ); break; case 1: pointsets<float,Max,Def<float>>( c ); break; case 2: pointsets<double,Taxi,Ground<double,Taxi>>( c ); break; default: pointsets<double,Eucl,Ground<double,Eucl>>( c ); }
}

SECTION( assignment, 20000, 200000 )
{
  switch( c.k % 4 ) { case 0: munkres<double>( c ); break; case 1: munkres<float>( c ); break; case 2: munkres<int>( c ); break; default: munkres<long>( c ); }
}
