// Points, pairings, sets and vectors as values against plain models.
#include "bridge.hh"

#include <aleph/geometry/Point.hh>
#include <aleph/persistentHomology/PersistencePairing.hh>
#include <aleph/utilities/ContainerOperators.hh>
#include <aleph/utilities/EmptyFunctor.hh>
#include <aleph/utilities/UnorderedSetOperations.hh>
#include <aleph/utilities/Values.hh>

using namespace vp;

namespace
{

template <class T> void points( Ctx& c )
{
  using P = aleph::geometry::Point<T>; auto make = [&]( std::size_t d ){ std::vector<T> v( d ); for( auto& x : v ) x = c.rng.chance( 0.7 ) ? T( c.rng.range( -1, 2 ) ) : T( c.rng.real( -9, 9 ) ); return v; };
  std::vector<T> a = make( std::size_t( c.rng.range( 0, 6 ) ) ), b = c.rng.chance( 0.3 ) ? a : make( c.rng.chance( 0.5 ) ? a.size() : std::size_t( c.rng.range( 0, 6 ) ) ); if( c.rng.chance( 0.3 ) && !a.empty() ) b.assign( a.begin(), a.begin() + std::ptrdiff_t( c.rng.below( a.size() + 1 ) ) );
  std::string w = str( a ) + " " + str( b ); c.desc << w; if( !a.empty() ) c.nontrivial( combine( dig( a ), dig( b ) ) );
  P p( a.begin(), a.end() ), q( b.begin(), b.end() ); c.eq( p.dimension(), a.size(), "dimension", w ); c.eq( p.size(), a.size(), "size", w ); c.expect( std::vector<T>( p.begin(), p.end() ) == a, "coordinates", w );
  c.eq( p == q, a == b, "equality", w ); c.eq( q == p, a == b, "equality", w ); c.eq( p != q, a != b, "inequality", w ); c.eq( p < q, a < b, "order", w ); c.eq( q < p, b < a, "order", w ); c.expect( p == p && !( p < p ) && !( p != p ), "reflexive", w );
  std::ostringstream o, e; o << p; for( std::size_t i = 0; i < a.size(); i++ ) e << ( i ? " " : "" ) << a[i]; c.eq( o.str(), e.str(), "text", w );
  P r( p ); c.expect( r == p, "copy", w ); if( !a.empty() ) { std::size_t i = c.rng.below( a.size() ); *( r.begin() + std::ptrdiff_t( i ) ) = T( 77 ); auto m = a; m[i] = T( 77 ); c.expect( std::vector<T>( r.begin(), r.end() ) == m && std::vector<T>( p.begin(), p.end() ) == a, "independent-copy", w ); p = r; c.expect( p == r, "assignment", w ); }
  P i{ T( 1 ), T( 2 ), T( 3 ) }; c.expect( std::vector<T>( i.begin(), i.end() ) == std::vector<T>( { T( 1 ), T( 2 ), T( 3 ) } ), "list", w );
}

template <class I> void pairings( Ctx& c )
{
  using PP = aleph::PersistencePairing<I>; using V = std::vector<std::pair<I,I>>; std::vector<PP> A( 2 ); std::vector<V> E( 2 ); const I open = std::numeric_limits<I>::max(); int steps = c.rng.range( 1, c.thorough ? 60 : 25 ); std::uint64_t h = 1; std::string log;
  for( int s = 0; s < steps; s++ )
  {
    std::size_t k = c.rng.below( 2 ); I x = I( c.rng.range( 0, 9 ) ), y = c.rng.chance( 0.1 ) ? open : I( c.rng.range( 0, 12 ) ); int op = c.rng.range( 0, 7 ); h = combine( h, std::uint64_t( op ) * 1000 + k * 500 + std::uint64_t( x ) * 13 + std::uint64_t( y ) ); log += " " + std::to_string( op ) + ":" + std::to_string( +x ) + "," + std::to_string( +y );
    switch( op )
    {
    case 0: A[k].add( x ); E[k].push_back( { x, open } ); break;
    case 1: case 2: case 3: A[k].add( x, y ); E[k].push_back( { x, y } ); break;
    case 4: if( !E[k].empty() ) { auto i = std::ptrdiff_t( c.rng.below( E[k].size() ) ); auto it = A[k].erase( A[k].begin() + i ); E[k].erase( E[k].begin() + i ); c.eq( it - A[k].begin(), i, "erase-position", log ); } break;
    case 5: { auto i = std::ptrdiff_t( c.rng.below( E[k].size() + 1 ) ), j = i + std::ptrdiff_t( c.rng.below( E[k].size() - std::size_t( i ) + 1 ) ); if( c.rng.chance( 0.3 ) ) { A[k].erase( A[k].begin() + i, A[k].begin() + j ); E[k].erase( E[k].begin() + i, E[k].begin() + j ); } break; }
    case 6: if( c.rng.chance( 0.3 ) ) { A[k] = A[1-k]; E[k] = E[1-k]; } break;
    default: if( !E[k].empty() ) { std::size_t i = c.rng.below( E[k].size() ); ( A[k].begin() + std::ptrdiff_t( i ) )->second = y; E[k][i].second = y; }
    }
    for( std::size_t i = 0; i < 2; i++ ) { const PP& a = A[i]; c.expect( V( a.begin(), a.end() ) == E[i], "content", log ); c.eq( a.size(), E[i].size(), "size", log ); c.eq( a.empty(), E[i].empty(), "empty", log ); }
    const PP& a = A[k]; std::ptrdiff_t f = 0, g = 0; while( std::size_t( f ) < E[k].size() && E[k][std::size_t( f )] != std::make_pair( x, y ) ) f++; while( std::size_t( g ) < E[k].size() && E[k][std::size_t( g )].first != x ) g++;
    c.eq( a.find( x, y ) - a.begin(), f, "find-pair", log ); c.eq( a.find( x ) - a.begin(), g, "find-creator", log ); c.eq( a.contains( x, y ), std::size_t( f ) < E[k].size(), "contains-pair", log ); c.eq( a.contains( x ), std::size_t( g ) < E[k].size(), "contains-creator", log );
    c.eq( A[0] == A[1], E[0] == E[1], "equality", log ); c.eq( A[0] != A[1], E[0] != E[1], "inequality", log );
  }
  std::ostringstream o; o << A[0]; std::istringstream in( o.str() ); std::string line; std::vector<std::string> L, M; while( std::getline( in, line ) ) if( line.find( ',' ) != std::string::npos ) L.push_back( line ); for( auto& p : E[0] ) { std::ostringstream t; t << p.first << "," << p.second; M.push_back( t.str() ); } c.expect( L == M, "text", log );
  c.desc << log; c.nontrivial( h );
}

}

SECTION( points_double, 5000, 80000 ) { points<double>( c ); }
SECTION( points_float, 2000, 30000 ) { points<float>( c ); }
SECTION( points_int, 2000, 30000 ) { points<int>( c ); }
SECTION( pairings_unsigned, 2500, 40000 ) { pairings<unsigned>( c ); }
SECTION( pairings_short, 1200, 20000 ) { pairings<unsigned short>( c ); }
SECTION( pairings_wide, 1200, 20000 ) { pairings<long>( c ); }

SECTION( sets, 3000, 50000 )
{
  std::unordered_set<int> A, B, C; std::set<int> a, b, e; int n = c.rng.range( 0, 20 ), m = c.rng.range( 0, 20 ); for( int i = 0; i < n; i++ ) { int x = c.rng.range( -12, 12 ); A.insert( x ); a.insert( x ); } for( int i = 0; i < m; i++ ) { int x = c.rng.range( -12, 12 ); B.insert( x ); b.insert( x ); }
  std::string w = str( a ) + " " + str( b ); c.desc << w; if( !a.empty() ) c.nontrivial( combine( dig( a ), dig( b ) ) ); std::set_intersection( a.begin(), a.end(), b.begin(), b.end(), std::inserter( e, e.end() ) ); aleph::utilities::set_intersection( A, B, C ); c.expect( std::set<int>( C.begin(), C.end() ) == e, "intersection", w ); c.expect( std::set<int>( A.begin(), A.end() ) == a && std::set<int>( B.begin(), B.end() ) == b, "argument-changed", w );
}

namespace
{

template <class T> void vectors( Ctx& c )
{
  using namespace aleph::utilities; std::size_t n = std::size_t( c.rng.range( 0, 12 ) ); auto value = [&]{ return std::is_integral<T>::value ? T( c.rng.range( -50, 50 ) ) : T( c.rng.real( -50, 50 ) ); }; std::vector<T> a( n ), b( n ), s( n ), d( n ), m( n ); T l = value(); for( std::size_t i = 0; i < n; i++ ) { a[i] = value(); b[i] = value(); s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; m[i] = l * a[i]; }
  std::string w = strx( l ) + " " + str( a ) + " " + str( b ); c.desc << w; if( n ) c.nontrivial( combine( dig( a ), dig( b ) ) ); c.expect( a + b == s, "sum", w ); c.expect( a - b == d, "difference", w ); c.expect( l * a == m, "multiple", w ); if( !std::is_integral<T>::value ) { std::vector<T> t( n ); for( std::size_t i = 0; i < n; i++ ) t[i] = T( 3 ) * a[i]; c.expect( 3 * a == t, "integer-multiple", w ); }
}

}

SECTION( vectors_double, 2500, 40000 ) { vectors<double>( c ); }
SECTION( vectors_int, 1500, 20000 ) { vectors<int>( c ); }

// The tolerance is relative to the second sequence; differences keep away from it.
SECTION( closeness, 3000, 50000 )
{
  using aleph::utilities::allclose; std::size_t n = std::size_t( c.rng.range( 0, 8 ) ); std::vector<double> a( n ), b( n ); bool defaults = c.rng.chance( 0.4 ), e = true; double r = defaults ? 1e-5 : std::pow( 10.0, c.rng.range( -9, -1 ) ), t = defaults ? 1e-8 : c.rng.chance( 0.3 ) ? 0 : std::pow( 10.0, c.rng.range( -9, 0 ) );
  double far = c.rng.chance( 0.5 ) ? 0 : 1.0 / double( n + 1 ); for( std::size_t i = 0; i < n; i++ ) { b[i] = c.rng.chance( 0.1 ) ? 0 : c.rng.normal() * std::pow( 10.0, c.rng.range( -3, 4 ) ); double tol = t + r * std::fabs( b[i] ); bool off = c.rng.chance( far ); a[i] = b[i] + ( c.rng.chance( 0.5 ) ? 1 : -1 ) * tol * ( off ? c.rng.real( 1.01, 3 ) : c.rng.real( 0, 0.99 ) ); double diff = std::fabs( a[i] - b[i] ); if( off && !( diff > 1.001 * tol ) ) a[i] = b[i]; else e = e && !off; if( !off && diff > 0.999 * tol ) a[i] = b[i]; }
  std::string w = str( a ) + " " + str( b ) + " " + strx( r ) + " " + strx( t ); c.desc << w; if( n ) c.nontrivial( combine( dig( a ), dig( b ) ) ); c.eq( defaults ? allclose( a.begin(), a.end(), b.begin(), b.end() ) : allclose( a.begin(), a.end(), b.begin(), b.end(), r, t ), e, "closeness", w ); auto longer = b; longer.push_back( 0 ); c.expect( !allclose( a.begin(), a.end(), longer.begin(), longer.end(), 1e9, 1e9 ) && !allclose( longer.begin(), longer.end(), a.begin(), a.end(), 1e9, 1e9 ), "length", w );
}

namespace
{

template <class T> void ranges( Ctx& c )
{
  T x = T( c.rng.range( -3, 3 ) ), l = T( c.rng.range( -3, 3 ) ), u = T( c.rng.range( -3, 3 ) ); if( !std::is_integral<T>::value && c.rng.chance( 0.1 ) ) x = std::numeric_limits<T>::quiet_NaN(); std::string w = strx( x ) + " in " + strx( l ) + ".." + strx( u ); c.desc << w; c.nontrivial( hashString( w ) );
  auto thrown = [&]( std::function<void()> f ){ try { f(); return false; } catch( const std::out_of_range& ) { return true; } }; c.eq( thrown( [&]{ aleph::utilities::ensureRange( x, l, u ); } ), !( x >= l && x <= u ), "range", w ); c.eq( thrown( [&]{ aleph::utilities::ensureLarger( x, l ); } ), !( x > l ), "larger", w );
  aleph::utilities::EmptyFunctor f; c.expect( f( x, l ) && f() && f.initialize( u ), "functor", w );
}

}

SECTION( ranges_double, 800, 5000 ) { ranges<double>( c ); }
SECTION( ranges_int, 800, 5000 ) { ranges<int>( c ); }
