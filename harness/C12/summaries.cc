#include "bridge.hh"
#include "dgm.hh"

#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Mean.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

using namespace vp;
template <class T> using PD = aleph::PersistenceDiagram<T>;

namespace
{

template <class T> constexpr T infinite() { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
template <class T> constexpr double eps() { return std::is_same<T,float>::value ? 5e-5 : 1e-10; }

template <class T> using List = std::vector<std::pair<T,T>>;

template <class T> List<T> contents( const PD<T>& D ) { List<T> L; for( auto&& p : D ) L.push_back( { p.x(), p.y() } ); return L; }
template <class T> List<T> sorted( List<T> L ) { std::sort( L.begin(), L.end() ); return L; }

template <class T> std::pair<T,T> point( Rng& r )
{
  int m = r.range( 0, 9 );
  if( m == 0 ) return { static_cast<T>( r.range( -5, 5 ) ), infinite<T>() };
  if( m == 1 ) { T x = static_cast<T>( r.range( -5, 5 ) ); return { x, x }; }
  if( m <= 6 ) return { static_cast<T>( r.range( -4, 4 ) ), static_cast<T>( r.range( -4, 4 ) ) };
  return { static_cast<T>( r.real( -100, 100 ) ), static_cast<T>( r.real( -100, 100 ) ) };
}

template <class T> void compare( Ctx& c, const PD<T>& D, const List<T>& L, bool ordered, const char* key )
{
  auto have = contents( D ); c.expectf( ordered ? have == L : sorted( have ) == sorted( L ), key, [&]( std::ostream& o ) { o << "have " << str( have ) << " want " << str( L ); } );
  c.eq( D.size(), L.size(), "size" ); c.eq( D.empty(), L.empty(), "empty" );
  std::size_t b = 0; for( auto& p : L ) b += p.second == infinite<T>(); c.eq( D.betti(), b, "betti" );
  std::size_t i = 0; for( auto&& p : D ) { if( i < have.size() ) c.eq( p.isUnpaired(), have[i].second == infinite<T>(), "unpaired" ); ++i; }
}

template <class T> void history( Ctx& c )
{
  PD<T> D; List<T> L; bool ordered = true; std::size_t dim = 0; std::ostringstream ops; int steps = c.rng.range( 1, 40 ); bool fromOther = c.rng.chance( 0.3 );
  for( int s = 0; s < steps; s++ )
  {
    int op = c.rng.range( 0, 15 );
    if( op < 7 ) { auto p = point<T>( c.rng ); if( p.second == infinite<T>() && c.rng.chance( 0.5 ) ) D.add( p.first ); else D.add( p.first, p.second ); L.push_back( p ); ops << "+"; }
    else if( op == 7 && !L.empty() ) { auto p = c.rng.pick( L ); D.add( p.first, p.second ); L.push_back( p ); ops << "c"; }
    else if( op == 8 ) { D.removeDiagonal(); L.erase( std::remove_if( L.begin(), L.end(), []( std::pair<T,T> p ) { return p.first == p.second; } ), L.end() ); ops << "d"; }
    else if( op == 9 ) { D.removeUnpaired(); L.erase( std::remove_if( L.begin(), L.end(), []( std::pair<T,T> p ) { return p.second == infinite<T>(); } ), L.end() ); ops << "u"; }
    else if( op == 10 ) { D.removeDuplicates(); std::set<std::pair<T,T>> S( L.begin(), L.end() ); L.assign( S.begin(), S.end() ); ordered = false; ops << "D"; }
    else if( op == 11 ) { PD<T> E; List<T> M; int n = c.rng.range( 0, 4 ); for( int i = 0; i < n; i++ ) { auto p = point<T>( c.rng ); E.add( p.first, p.second ); M.push_back( p ); } auto F = E; D.merge( E ); L.insert( L.end(), M.begin(), M.end() ); c.expect( E == F, "merge-operand" ); ops << "m"; }
    else if( op == 12 ) { auto E = D; if( c.rng.chance( 0.5 ) ) { D.merge( E ); L.insert( L.end(), L.begin(), L.end() ); if( L.size() > 200 ) { D = PD<T>(); D.setDimension( dim ); L.clear(); } } ops << "s"; }
    else if( op == 13 && !L.empty() && ordered ) { auto i = static_cast<std::ptrdiff_t>( c.rng.below( L.size() ) ); auto it = D.erase( D.begin() + i ); L.erase( L.begin() + i ); c.expect( it == D.begin() + i, "erase-iterator" ); ops << "e"; }
    else if( op == 14 && ordered ) { auto i = static_cast<std::ptrdiff_t>( c.rng.below( L.size() + 1 ) ); using P = typename PD<T>::Point; auto a = point<T>( c.rng ), b = point<T>( c.rng ); std::vector<P> v = { P( a.first, a.second ), P( b.first, b.second ) }; D.insert( D.begin() + i, v.begin(), v.end() ); List<T> w = { a, b }; L.insert( L.begin() + i, w.begin(), w.end() ); ops << "i"; }
    else if( op == 15 ) { dim = std::size_t( c.rng.range( 0, 3 ) ); D.setDimension( dim ); if( ordered && L.size() > 1 && c.rng.chance( 0.3 ) ) { auto i = static_cast<std::ptrdiff_t>( c.rng.below( L.size() ) ), j = i + static_cast<std::ptrdiff_t>( c.rng.below( L.size() - std::size_t( i ) + 1 ) ); D.erase( D.begin() + i, D.begin() + j ); L.erase( L.begin() + i, L.begin() + j ); } }
    compare( c, D, L, ordered, "contents" ); c.eq( D.dimension(), dim, "dimension" );
    if( !ordered && c.rng.chance( 0.5 ) ) { L = contents( D ); ordered = true; }
  }
  c.desc << "operations " << ops.str(); if( steps > 2 ) c.nontrivial( combine( hashString( ops.str() ), dig( L ) ) );
  auto E = D; c.expect( E == D && !( E != D ), "copy" );
  if( !L.empty() ) { auto it = E.begin() + static_cast<std::ptrdiff_t>( c.rng.below( L.size() ) ); E.erase( it ); c.expect( E != D && !( E == D ), "copy-modified" ); compare( c, D, L, ordered, "copy-independent" ); }
  // Points
  for( int i = 0; i < 5; i++ )
  {
    auto a = point<T>( c.rng ), b = c.rng.chance( 0.3 ) ? a : point<T>( c.rng ); using P = typename PD<T>::Point; P p( a.first, a.second ), q( b.first, b.second );
    c.eq( p == q, a == b, "point-equal" ); c.eq( p != q, a != b, "point-unequal" ); c.eq( p < q, a < b, "point-less" ); if( !p.isUnpaired() ) c.expect( p.persistence() == static_cast<T>( a.second - a.first ), "point-persistence" );
    P u( a.first ); c.expect( u.isUnpaired() && u.x() == a.first && u.y() == infinite<T>(), "point-unpaired" );
  }
}

template <class T> PD<T> make( const Pts& A ) { PD<T> D; for( auto& p : A ) D.add( static_cast<T>( p.first ), static_cast<T>( p.second ) ); return D; }
template <class T> Pts values( const PD<T>& D ) { Pts A; for( auto&& p : D ) A.push_back( { static_cast<double>( p.x() ), static_cast<double>( p.y() ) } ); return A; }

template <class T> void norms( Ctx& c )
{
  Pts raw = randomDiagram( c.rng, std::size_t( c.k % 11 == 0 ? 0 : c.rng.range( 0, c.k % 25 == 0 ? 400 : c.k % 5 == 0 ? 200 : 12 ) ) ); if( std::is_integral<T>::value ) for( auto& p : raw ) { p.first = std::floor( p.first ); p.second = std::floor( p.second ); }
  auto D = make<T>( raw ); auto A = values( D ); c.desc << "points " << str( A ); if( A.size() > 1 ) c.nontrivial( dig( A ) );
  double k = c.rng.pick( std::vector<double>{ 1, 2, 3, 0.5, 2.5, 0 } ); long double sum = 0, weighted = 0; double top = 0, mag = 1;
  for( auto& p : A ) { double q = std::fabs( double( static_cast<T>( static_cast<T>( p.second ) - static_cast<T>( p.first ) ) ) ); sum += std::pow( q, k ); weighted += std::fabs( p.first ) * std::pow( q, k ); top = std::max( top, q ); mag = std::max( mag, q ); }
  std::string what = "power " + strx( k );
  c.near( aleph::totalPersistence( D, k ), double( sum ), 1e-9, "total-persistence", what ); c.near( aleph::totalPersistence( D, k, true ), double( weighted ), eps<T>(), "total-persistence-weighted", what ); if( k == 2 ) c.near( aleph::totalPersistence( D ), double( sum ), 1e-9, "total-persistence-default" );
  if( k == 0 ) c.throws( [&] { aleph::pNorm( D, 0.0 ); }, "p-norm-zero" ); else { c.near( aleph::pNorm( D, k ), std::pow( double( sum ), 1 / k ), 1e-9, "p-norm", what ); c.near( aleph::pNorm( D, k, true ), std::pow( double( weighted ), 1 / k ), eps<T>(), "p-norm-weighted", what ); }
  c.near( double( aleph::infinityNorm( D ) ), top, 0, "infinity-norm" );
  std::vector<T> signedValues, absolute; aleph::persistence( D, std::back_inserter( signedValues ) ); aleph::persistence( D, std::back_inserter( absolute ), true ); bool ok = signedValues.size() == A.size() && absolute.size() == A.size();
  if( ok ) { std::size_t i = 0; for( auto&& p : D ) { ok = ok && signedValues[i] == static_cast<T>( p.y() - p.x() ) && absolute[i] == static_cast<T>( std::abs( p.y() - p.x() ) ); ++i; } } c.expect( ok, "persistence-values" );
  std::map<std::pair<double,double>,int> mult; for( auto& p : A ) mult[p]++; std::vector<double> want, have; for( auto& m : mult ) want.push_back( double( m.second ) / double( A.size() ) * ( m.first.second - m.first.first ) ); aleph::weightedPersistence( D, std::back_inserter( have ) );
  std::sort( want.begin(), want.end() ); std::sort( have.begin(), have.end() ); ok = want.size() == have.size(); for( std::size_t i = 0; ok && i < want.size(); i++ ) ok = Ctx::close( have[i], want[i], eps<T>() * mag ); c.expectf( ok, "weighted-persistence", [&]( std::ostream& o ) { o << str( have ) << " want " << str( want ); } );
}

double entropy( const std::vector<double>& w ) { double t = 0, e = 0; for( double x : w ) t += x; for( double x : w ) if( x > 0 ) e -= x / t * std::log2( x / t ); return e; }

template <class T> void persistent( Ctx& c )
{
  auto A = randomDiagram( c.rng, std::size_t( c.rng.range( 0, c.k % 25 == 0 ? 400 : c.k % 5 == 0 ? 120 : 8 ) ), c.rng.pick( std::vector<int>{ 0, 1, 2, 3, 6 } ) ); auto D = make<T>( A ); A = values( D ); std::vector<double> w; double total = 0; for( auto& p : A ) { w.push_back( std::fabs( p.second - p.first ) ); total += w.back(); }
  c.desc << "points " << str( A ); if( A.size() > 1 ) c.nontrivial( dig( A ) ); if( total == 0 && !A.empty() ) throw Skip();
  c.near( double( aleph::persistentEntropy( D ) ), entropy( w ), eps<T>(), "persistent-entropy" );
}

template <class T> void neighbours( Ctx& c )
{
  auto A = randomDiagram( c.rng, std::size_t( c.rng.range( 2, c.k % 25 == 0 ? 400 : c.k % 5 == 0 ? 100 : 9 ) ), c.rng.pick( std::vector<int>{ 1, 2, 3, 5 } ) ); auto D = make<T>( A ); A = values( D ); std::vector<double> w; double total = 0;
  for( std::size_t i = 0; i < A.size(); i++ ) { double d = INF; for( std::size_t j = 0; j < A.size(); j++ ) if( i != j ) d = std::min( d, std::hypot( A[i].first - A[j].first, A[i].second - A[j].second ) ); w.push_back( d * d ); total += d * d; }
  c.desc << "points " << str( A ); if( total == 0 ) throw Skip(); c.nontrivial( dig( A ) ); c.near( double( aleph::nearestNeighbourAreaEntropy( D ) ), entropy( w ), eps<T>() * 20, "neighbour-entropy" );
}

template <class T> void grid( Ctx& c )
{
  int special = c.rng.range( 0, 9 ); auto A = randomDiagram( c.rng, std::size_t( special == 0 ? 1 : c.rng.range( 0, c.k % 25 == 0 ? 400 : c.k % 5 == 0 ? 150 : 10 ) ), c.rng.pick( std::vector<int>{ 1, 3 } ) ); unsigned n = static_cast<unsigned>( c.rng.range( special == 1 ? 1 : 2, 12 ) );
  if( special == 2 && !A.empty() ) for( auto& p : A ) p.first = A[0].first; if( special == 3 && !A.empty() ) for( auto& p : A ) p.second = A[0].second; if( special == 4 && !A.empty() ) for( auto& p : A ) p = A[0];
  auto D = make<T>( A ); A = values( D ); c.desc << "points " << str( A ) << " cells " << n; if( A.size() > 1 ) c.nontrivial( combine( dig( A ), n ) );
  double actual = aleph::gridEntropy( D, n ); if( A.empty() ) { c.near( actual, 0, 0, "grid-entropy-empty" ); return; }
  // Coordinates in the rotated system; the extreme cell of the largest value
  // depends on rounding, so both possibilities are accepted
  double lo[2] = { INF, INF }, hi[2] = { -INF, -INF }; auto at = [&]( std::size_t i, int k ) { return k == 0 ? A[i].second : -A[i].first; };
  for( std::size_t i = 0; i < A.size(); i++ ) for( int k = 0; k < 2; k++ ) { lo[k] = std::min( lo[k], at( i, k ) ); hi[k] = std::max( hi[k], at( i, k ) ); }
  double amb = std::is_same<T,float>::value ? 1e-3 : 1e-9; std::vector<double> candidates;
  // With a single value in one direction, rounding in the rotated system may
  // split the points arbitrarily
  for( int k = 0; k < 2; k++ ) if( hi[k] == lo[k] && A.size() > 1 && special != 4 ) throw Skip();
  for( int variant = 0; variant < 4; variant++ )
  {
    std::map<std::pair<int,int>,double> cells;
    for( std::size_t i = 0; i < A.size(); i++ )
    {
      int cell[2];
      for( int k = 0; k < 2; k++ )
      {
        if( n == 1 || hi[k] == lo[k] ) { cell[k] = 0; continue; }
        double q = ( at( i, k ) - lo[k] ) / ( hi[k] - lo[k] ) * ( n - 1 ); cell[k] = int( std::floor( q ) );
        if( at( i, k ) == hi[k] ) cell[k] = int( n ) - 1 - ( ( variant >> k ) & 1 ); else if( at( i, k ) != lo[k] && std::fabs( q - std::round( q ) ) < amb ) throw Skip();
      }
      cells[ { cell[0], cell[1] } ] += 1;
    }
    std::vector<double> w; for( auto& x : cells ) w.push_back( x.second ); candidates.push_back( entropy( w ) );
  }
  bool ok = false; for( double x : candidates ) ok = ok || Ctx::close( actual, x, eps<T>() ); c.expectf( ok, "grid-entropy", [&]( std::ostream& o ) { o << actual << " candidates " << str( candidates ); } );
}

} // namespace

SECTION( container, 12000, 200000 ) { switch( c.k % 3 ) { case 0: history<double>( c ); break; case 1: history<float>( c ); break; default: history<int>( c ); } }
SECTION( norms, 8000, 100000 ) { switch( c.k % 3 ) { case 0: norms<double>( c ); break; case 1: norms<float>( c ); break; default: norms<int>( c ); } }
SECTION( persistententropy, 4000, 50000 ) { if( c.k % 2 ) persistent<double>( c ); else persistent<float>( c ); }
SECTION( neighbourentropy, 3000, 40000 ) { if( c.k % 2 ) neighbours<double>( c ); else neighbours<float>( c ); }
SECTION( gridentropy, 4000, 50000 ) { if( c.k % 2 ) grid<double>( c ); else grid<float>( c ); }

SECTION( meandiagram, 800, 10000 )
{
  using D = PD<double>; std::size_t n = std::size_t( c.rng.range( 1, 6 ) ); bool same = c.rng.chance( 0.4 ); Pts A = randomDiagram( c.rng, std::size_t( c.rng.range( 1, 8 ) ), c.rng.pick( std::vector<int>{ 1, 2 } ) );
  std::vector<D> v; std::size_t largest = 0; double lo = INF, hi = -INF; std::uint64_t h = 0;
  for( std::size_t i = 0; i < n; i++ ) { auto B = same ? A : randomDiagram( c.rng, std::size_t( c.rng.range( 0, 8 ) ), c.rng.pick( std::vector<int>{ 0, 1, 2, 6 } ) ); if( same ) c.rng.shuffle( B ); v.push_back( make<double>( B ) ); largest = std::max( largest, B.size() ); for( auto& p : B ) { lo = std::min( lo, p.first ); hi = std::max( hi, p.second ); } h = combine( h, dig( B ) ); c.desc << str( B ) << " "; }
  if( n > 1 ) c.nontrivial( h ); auto copy = v; auto M = aleph::mean( v.begin(), v.end() ); c.expect( copy == v, "mean-input" ); c.expect( M.size() <= largest, "mean-size" );
  for( auto&& p : M ) c.expect( p.x() != p.y() && p.x() >= lo - 1e-9 && p.y() <= hi + 1e-9, "mean-range" );
  if( same ) { auto want = A; Pts have = values( M ); std::sort( want.begin(), want.end() ); std::sort( have.begin(), have.end() ); bool ok = have.size() == want.size(); for( std::size_t i = 0; ok && i < want.size(); i++ ) ok = std::fabs( have[i].first - want[i].first ) < 1e-9 && std::fabs( have[i].second - want[i].second ) < 1e-9; c.expectf( ok, "mean-of-copies", [&]( std::ostream& o ) { o << str( have ) << " want " << str( want ); } ); }
}
