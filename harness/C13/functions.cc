#include "bridge.hh"
#include "dgm.hh"

#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/StepFunction.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

#include <iomanip>
#include <numeric>

using namespace vp;
template <class T> using SF = aleph::math::StepFunction<T>;
template <class T> using PL = aleph::math::PiecewiseLinearFunction<T>;
template <class T> using PD = aleph::PersistenceDiagram<T>;

namespace
{

template <class T> constexpr double eps() { return std::is_same<T,float>::value ? 1e-4 : 1e-9; }
bool close( double a, double b, double tol, double scale = 1 ) { return std::fabs( a - b ) <= tol * std::max( { 1.0, std::fabs( a ), std::fabs( b ), scale } ); }

// -- Step functions -----------------------------------------------------

struct Piece { double a, b, y; };

template <class T> std::vector<Piece> randomPieces( Rng& r, int n, int mode )
{
  std::vector<Piece> v; double x = r.range( -20, 20 );
  for( int i = 0; i < n; i++ )
  {
    if( r.chance( 0.4 ) ) x += mode == 0 ? r.range( 1, 3 ) : r.real( 0.05, 3 );
    double b = x + ( mode == 0 ? r.range( 1, 4 ) : r.real( 0.05, 4 ) ), y = mode == 0 ? r.range( -3, 3 ) : mode == 1 ? r.real( -10, 10 ) : r.real( 0.1, 10 );
    v.push_back( { double( T( x ) ), double( T( b ) ), double( T( y ) ) } ); x = double( T( b ) );
  }
  return v;
}

template <class T> SF<T> makeStep( Rng& r, std::vector<Piece> v ) { r.shuffle( v ); SF<T> f; for( auto& p : v ) f.add( T( p.a ), T( p.b ), T( p.y ) ); return f; }
std::string text( const std::vector<Piece>& v ) { std::string s; for( auto& p : v ) s += "[" + strx( p.a ) + "," + strx( p.b ) + "]:" + strx( p.y ) + " "; return s; }
std::uint64_t digest( const std::vector<Piece>& v ) { std::uint64_t h = v.size(); for( auto& p : v ) { h = combine( h, dig( p.a ) ); h = combine( h, dig( p.b ) ); h = combine( h, dig( p.y ) ); } return h; }
double value( const std::vector<Piece>& v, double x ) { double y = 0; for( auto& p : v ) if( p.a <= x && x <= p.b && std::fabs( p.y ) > std::fabs( y ) ) y = p.y; return y; }

template <class T> std::vector<double> breakpoints( const SF<T>& f, const SF<T>& g = SF<T>() ) { std::set<T> s; f.domain( std::inserter( s, s.end() ) ); g.domain( std::inserter( s, s.end() ) ); return std::vector<double>( s.begin(), s.end() ); }
template <class T> bool same( const SF<T>& f, const SF<T>& g ) { std::vector<T> a, b, x, y; f.domain( std::back_inserter( a ) ); g.domain( std::back_inserter( b ) ); f.image( std::back_inserter( x ) ); g.image( std::back_inserter( y ) ); return a == b && x == y; }

// Midpoints of all intervals that are wide enough, plus outside points
template <class T> std::vector<double> midpoints( const std::vector<double>& b )
{
  std::vector<double> m; double w = std::is_same<T,float>::value ? 1e-3 : 1e-7; if( b.empty() ) return { 0 }; m.push_back( b.front() - 1 ); for( std::size_t i = 0; i + 1 < b.size(); i++ ) if( b[i+1] - b[i] > w ) m.push_back( double( T( ( b[i] + b[i+1] ) / 2 ) ) ); m.push_back( b.back() + 1 ); return m;
}

// Two end points at which neither operand differs although an operand differs
// in between: the class of sums covered by a known finding
template <class T> bool equalEnds( const SF<T>& f, const SF<T>& g, double x, double y, double m ) { return f( T( x ) ) == f( T( y ) ) && g( T( x ) ) == g( T( y ) ) && ( f( T( m ) ) != f( T( x ) ) || g( T( m ) ) != g( T( x ) ) ); }

// Returns false if the sum is covered by the known finding
template <class T> bool checkSum( Ctx& c, const SF<T>& f, const SF<T>& g, double sign, const SF<T>& r, bool leaves )
{
  auto b = breakpoints( f, g ); bool affected = false; double w = std::is_same<T,float>::value ? 1e-3 : 1e-7; double scale = 1, want = 0; for( auto x : { f.integral(), g.integral() } ) scale = std::max( scale, double( std::fabs( x ) ) );
  for( std::size_t i = 0; i + 1 < b.size(); i++ )
  {
    if( b[i+1] - b[i] <= w ) continue;
    double m = double( T( ( b[i] + b[i+1] ) / 2 ) ); bool e = equalEnds( f, g, b[i], b[i+1], m ); affected = affected || e; double v = f( T( m ) ) + sign * g( T( m ) );
    c.expectf( close( r( T( m ) ), v, eps<T>() ), e ? "sum-equal-ends" : "sum-value", [&]( std::ostream& o ) { o << "at " << m << " " << r( T( m ) ) << " want " << v; } ); scale = std::max( scale, std::fabs( v ) * ( b[i+1] - b[i] ) );
  }
  if( !b.empty() ) { c.expect( r( T( b.front() - 1 ) ) == 0 && r( T( b.back() + 1 ) ) == 0, "sum-outside" ); }
  want = f.integral() + sign * g.integral(); if( affected ) return false;
  c.expectf( close( r.integral(), want, eps<T>(), scale * double( b.size() + 1 ) ), "sum-integral", [&]( std::ostream& o ) { o << r.integral() << " want " << want; } );
  if( leaves ) for( double x : b ) { double v = f( T( x ) ) + sign * g( T( x ) ); c.expectf( close( r( T( x ) ), v, eps<T>() ), "sum-breakpoint", [&]( std::ostream& o ) { o << "at " << x << " " << r( T( x ) ) << " want " << v; } ); }
  return true;
}

template <class T> void leaf( Ctx& c, const std::vector<Piece>& v, const SF<T>& f )
{
  std::vector<double> b; for( auto& p : v ) { b.push_back( p.a ); b.push_back( p.b ); } std::sort( b.begin(), b.end() ); double total = 0, mag = 1, top = -INF;
  for( double x : b ) c.near( f( T( x ) ), value( v, x ), 0, "evaluation-breakpoint", "at " + strx( x ) ); for( double x : midpoints<T>( b ) ) c.near( f( T( x ) ), value( v, x ), 0, "evaluation", "at " + strx( x ) );
  for( auto& p : v ) { total += ( p.b - p.a ) * p.y; mag += std::fabs( ( p.b - p.a ) * p.y ); top = std::max( top, p.y ); } if( v.empty() ) top = 0;
  c.near( f.integral(), total, eps<T>() * mag, "integral" ); c.expectf( f.max() == T( top ) || f.max() == std::max( T( top ), T( 0 ) ), "maximum", [&]( std::ostream& o ) { o << f.max() << " want " << top; } ); c.expect( f.sup() == f.max(), "supremum" );
  c.near( f.integral_p( T( 1 ) ), std::accumulate( v.begin(), v.end(), 0.0, []( double s, const Piece& p ) { return s + std::fabs( ( p.b - p.a ) * p.y ); } ), eps<T>() * mag, "integral-absolute" );
  std::multiset<double> ends, haveEnds, ys, haveYs; std::vector<T> d, y; f.domain( std::back_inserter( d ) ); f.image( std::back_inserter( y ) ); for( auto& p : v ) { ends.insert( p.a ); ends.insert( p.b ); ys.insert( p.y ); } haveEnds.insert( d.begin(), d.end() ); haveYs.insert( y.begin(), y.end() ); c.expect( ends == haveEnds && ys == haveYs, "domain-image" );
  c.expect( f.indicatorFunctions().size() == v.size(), "indicator-count" );
}

template <class T> void unary( Ctx& c, const SF<T>& f )
{
  auto b = breakpoints( f ); auto m = midpoints<T>( b ); auto copy = f; double k = c.rng.pick( std::vector<double>{ 2, -1, 0.5, -3, 0.25, 10 } ); if( c.rng.chance( 0.5 ) ) k = double( T( c.rng.real( -3, 3 ) ) ); if( k == 0 ) k = 1;
  std::vector<double> all = m; all.insert( all.end(), b.begin(), b.end() ); T K = T( k );
  auto every = [&]( const SF<T>& r, const std::vector<double>& xs, const char* key, std::function<double( double )> op ) { for( double x : xs ) { double want = op( f( T( x ) ) ); c.expectf( close( r( T( x ) ), want, eps<T>() ), key, [&]( std::ostream& o ) { o << "at " << x << " " << r( T( x ) ) << " want " << want; } ); } };
  every( -f, all, "negation", []( double y ) { return -y; } ); every( f * K, all, "scaling", [&]( double y ) { return y * k; } ); every( f / K, all, "division", [&]( double y ) { return y / k; } ); every( K * f, all, "scaling-left", [&]( double y ) { return y * k; } );
  { auto g = f; g *= K; every( g, all, "scaling-in-place", [&]( double y ) { return y * k; } ); g = f; g /= K; every( g, all, "division-in-place", [&]( double y ) { return y / k; } ); }
  { auto g = f; auto& h = g.abs(); every( g, all, "absolute", []( double y ) { return std::fabs( y ); } ); c.expect( &h == &g, "absolute-reference" ); }
  for( int p = 1; p <= 3; p++ ) { auto g = f; g.pow( T( p ) ); every( g, all, "power", [&]( double y ) { return std::pow( y, p ); } ); }
  // Scalar shifts apply wherever the function is defined
  std::vector<double> inside; for( auto&& i : f.indicatorFunctions() ) { double x = double( T( ( double( i.a() ) + double( i.b() ) ) / 2 ) ); if( double( i.b() ) - double( i.a() ) > 1e-3 ) inside.push_back( x ); } every( f + K, inside, "shift", [&]( double y ) { return y + k; } ); every( f - K, inside, "shift-down", [&]( double y ) { return y - k; } );
  c.throws( [&] { f / T( 0 ); }, "division-by-zero" ); c.expect( same( f, copy ), "operand-modified" );
  std::vector<T> image; f.image( std::back_inserter( image ) ); std::set<T> distinct( image.begin(), image.end() );
  if( distinct.size() > 1 && *distinct.rbegin() > T( 0 ) ) { double top = *distinct.rbegin(), lo = c.rng.range( 0, 2 ), hi = lo + c.rng.range( 1, 4 ); every( aleph::math::normalize( f, T( lo ), T( hi ) ), inside, "normalize", [&]( double y ) { return lo + y / top * ( hi - lo ); } ); every( aleph::math::normalize( f ), inside, "normalize-default", [&]( double y ) { return y / top; } ); }
  std::stringstream s; s << std::setprecision( 17 ) << f; SF<T> g; s >> g; c.expectf( same( f, g ), "stream", [&]( std::ostream& o ) { o << s.str(); } );
}

template <class T> void tree( Ctx& c )
{
  int mode = c.rng.range( 0, 2 ), n = c.rng.range( 2, 5 ); std::vector<SF<T>> fs; std::uint64_t h = 0; std::vector<bool> isLeaf;
  for( int i = 0; i < n; i++ ) { auto v = randomPieces<T>( c.rng, c.rng.range( 0, 6 ), mode ); auto f = makeStep<T>( c.rng, v ); c.desc << text( v ) << "; "; h = combine( h, digest( v ) ); leaf( c, v, f ); fs.push_back( f ); isLeaf.push_back( true ); }
  c.nontrivial( h ); unary( c, fs[0] );
  for( int step = 0; step < 6; step++ )
  {
    std::size_t i = c.rng.below( fs.size() ), j = c.rng.below( fs.size() ); auto f = fs[i], g = fs[j], keepF = f, keepG = g; int op = c.rng.range( 0, 5 ); SF<T> r; bool leaves = isLeaf[i] && isLeaf[j]; bool ok = true;
    if( op == 0 ) { r = f + g; ok = checkSum( c, f, g, 1, r, leaves ); } else if( op == 1 ) { r = f - g; ok = checkSum( c, f, SF<T>( -g ), 1, r, leaves ); } else if( op == 2 ) { r = f; r += g; ok = checkSum( c, f, g, 1, r, leaves ); } else if( op == 3 ) { r = f; r -= g; ok = checkSum( c, f, SF<T>( -g ), 1, r, leaves ); }
    else if( op == 4 ) { r = -f; leaves = isLeaf[i]; } else { r = f * T( c.rng.pick( std::vector<double>{ 2, -1, 0.5 } ) ); leaves = isLeaf[i]; }
    c.expect( same( f, keepF ) && same( g, keepG ), "operand-modified" ); c.desc << "op " << op << " of " << i << "," << j << "; ";
    if( !ok ) continue; bool pure = op >= 4 && leaves; fs.push_back( r ); isLeaf.push_back( pure ); if( c.rng.chance( 0.3 ) ) unary( c, r );
  }
}

// -- Indicator functions ------------------------------------------------

template <class T> void indicator( Ctx& c )
{
  int mode = c.rng.pick( std::vector<int>{ 0, 1, 2, 3, 6 } ); auto A = randomDiagram( c.rng, std::size_t( c.rng.range( 0, c.k % 5 == 0 ? 80 : 8 ) ), mode ); bool inverted = false; for( auto& p : A ) { p = { double( T( p.first ) ), double( T( p.second ) ) }; inverted = inverted || p.first > p.second; }
  std::size_t unpaired = inverted ? 0 : std::size_t( c.rng.range( 0, 2 ) ); if( c.rng.chance( 0.5 ) ) unpaired = 0; for( std::size_t i = 0; i < unpaired; i++ ) A.push_back( { A.empty() || c.rng.chance( 0.5 ) ? double( T( c.rng.range( -5, 5 ) ) ) : A[ c.rng.below( A.size() ) ].first, INF } ); if( inverted ) for( auto& p : A ) if( p.first < p.second ) std::swap( p.first, p.second );
  c.rng.shuffle( A ); PD<T> D; for( auto& p : A ) D.add( T( p.first ), T( p.second ) ); c.desc << "points " << str( A ); if( A.size() > 1 ) c.nontrivial( dig( A ) );
  auto f = aleph::persistenceIndicatorFunction( D ); std::set<double> ev; double total = 0, mag = 1; for( auto& p : A ) { ev.insert( p.first ); if( p.second != INF ) ev.insert( p.second ); total += std::fabs( p.second - p.first ); mag = std::max( mag, std::fabs( p.first ) ); }
  auto count = [&]( double x, bool closed ) { int n = 0; for( auto& p : A ) { double lo = std::min( p.first, p.second ), hi = std::max( p.first, p.second ); n += closed ? lo <= x && x <= hi : lo < x && x < hi; } return n; };
  std::vector<double> b( ev.begin(), ev.end() ); double w = std::is_same<T,float>::value ? 1e-3 * mag : 1e-9 * mag;
  std::vector<double> xs; if( !b.empty() ) { xs = { b.front() - 1 - mag, b.back() + 1 + mag }; for( std::size_t i = 0; i + 1 < b.size(); i++ ) if( b[i+1] - b[i] > w ) xs.push_back( double( T( ( b[i] + b[i+1] ) / 2 ) ) ); }
  int top = 0; for( double x : xs ) { int n = count( x, false ); top = std::max( top, n ); c.near( f( T( x ) ), n, 0, "indicator", "at " + strx( x ) ); }
  for( double x : b ) { double y = f( T( x ) ); c.expectf( y <= count( x, true ) && y >= count( x, false ), "indicator-event", [&]( std::ostream& o ) { o << "at " << x << " " << y; } ); }
  if( unpaired == 0 && mode != 3 ) c.near( f.integral(), total, std::is_same<T,float>::value ? 1e-3 * mag * double( A.size() + 1 ) : 1e-9 * mag * double( A.size() + 1 ), "indicator-integral" );
  if( mode != 1 ) c.expect( f.max() >= T( top ), "indicator-max" );
}

// -- Piecewise linear functions -----------------------------------------

using Knots = std::map<double,double>;
double value( const Knots& k, double x ) { auto it = k.lower_bound( x ); if( it == k.end() ) return 0; if( it->first == x ) return it->second; if( it == k.begin() ) return 0; auto p = std::prev( it ); return p->second + ( it->second - p->second ) * ( x - p->first ) / ( it->first - p->first ); }
template <class T> Knots randomKnots( Rng& r, int n, int mode, double lo, double hi )
{
  Knots k; auto y = [&] { return double( T( mode == 0 ? r.range( -3, 3 ) : r.real( -10, 10 ) ) ); }; if( n == 0 ) return k; k[lo] = y(); k[hi] = y();
  for( int i = 0; i < n; i++ ) { double x = mode == 0 ? r.range( int( lo ), int( hi ) ) : double( T( r.real( lo, hi ) ) ); bool near = false; for( auto& p : k ) near = near || ( std::fabs( p.first - x ) < 1e-2 && p.first != x ); if( !near ) k[x] = y(); }
  return k;
}
template <class T> PL<T> makeLinear( Rng& r, const Knots& k ) { std::vector<std::pair<T,T>> v; for( auto& p : k ) v.push_back( { T( p.first ), T( p.second ) } ); r.shuffle( v ); return PL<T>( v.begin(), v.end() ); }
template <class T> std::vector<double> samples( Rng& r, double lo, double hi, const std::vector<const Knots*>& ks ) { std::vector<double> x = { lo, hi }; for( auto k : ks ) for( auto& p : *k ) x.push_back( p.first ); std::sort( x.begin(), x.end() ); auto y = x; for( std::size_t i = 0; i + 1 < x.size(); i++ ) y.push_back( double( T( ( x[i] + x[i+1] ) / 2 ) ) ); for( int i = 0; i < 5; i++ ) y.push_back( double( T( r.real( lo, hi ) ) ) ); return y; }
template <class T> bool same( const PL<T>& f, const PL<T>& g ) { std::vector<T> a, b, x, y; f.domain( std::back_inserter( a ) ); g.domain( std::back_inserter( b ) ); f.image( std::back_inserter( x ) ); g.image( std::back_inserter( y ) ); return a == b && x == y; }

// Exact integral of |f|^p, segment by segment, split at zeros
double power( const Knots& k, double p )
{
  double s = 0; if( k.empty() ) return 0;
  for( auto it = k.begin(), n = std::next( it ); n != k.end(); ++it, ++n )
  {
    auto part = [&]( double y0, double y1, double w ) { y0 = std::fabs( y0 ); y1 = std::fabs( y1 ); int N = 64; double t = 0; if( std::fabs( y1 - y0 ) <= 1e-3 * std::max( y0, y1 ) ) { for( int i = 0; i < N; i++ ) t += std::pow( y0 + ( y1 - y0 ) * ( i + 0.5 ) / N, p ) / N; } else t = ( std::pow( y1, p + 1 ) - std::pow( y0, p + 1 ) ) / ( ( p + 1 ) * ( y1 - y0 ) ); return t * w; };
    double w = n->first - it->first, a = it->second, b = n->second; if( a * b < 0 ) { double z = a / ( a - b ); s += part( a, 0, z * w ) + part( 0, b, ( 1 - z ) * w ); } else s += part( a, b, w );
  }
  return std::pow( s, 1 / p );
}

template <class T> void linear( Ctx& c )
{
  int mode = c.rng.range( 0, 1 ), n = c.rng.range( 2, 4 ); double lo = c.rng.range( -10, 0 ), hi = lo + c.rng.range( 4, 20 ); std::vector<PL<T>> fs; std::vector<Knots> ks; std::vector<std::function<double( double )>> model; std::uint64_t h = 0;
  for( int i = 0; i < n; i++ ) { auto k = randomKnots<T>( c.rng, c.rng.range( c.k % 7 == 0 ? 0 : 1, 8 ), mode, lo, hi ); h = combine( h, dig( Pts( k.begin(), k.end() ) ) ); c.desc << str( Pts( k.begin(), k.end() ) ) << "; "; ks.push_back( k ); fs.push_back( makeLinear<T>( c.rng, k ) ); }
  c.nontrivial( h ); std::vector<const Knots*> ps; for( auto& k : ks ) ps.push_back( &k ); auto xs = samples<T>( c.rng, lo, hi, ps ); double tol = eps<T>() * 20;
  for( auto& k : ks ) model.push_back( [&k]( double x ) { return value( k, x ); } );
  auto check = [&]( const PL<T>& f, const std::function<double( double )>& m, const char* key ) { for( double x : xs ) { double want = m( x ); c.expectf( close( f( T( x ) ), want, tol, 10 ), key, [&]( std::ostream& o ) { o << "at " << x << " " << f( T( x ) ) << " want " << want; } ); } };
  for( int i = 0; i < n; i++ )
  {
    auto& f = fs[std::size_t(i)]; auto& k = ks[std::size_t(i)]; check( f, model[std::size_t(i)], "linear-evaluation" ); c.expect( f( T( lo - 1 ) ) == 0 && f( T( hi + 1 ) ) == 0, "linear-outside" ); double top = k.empty() ? 0 : -INF; for( auto& p : k ) top = std::max( top, p.second ); c.near( f.max(), top, 0, "linear-max" ); c.near( f.sup(), top, 0, "linear-sup" );
    for( double p : { 1.0, 2.0, 3.0, 1.5, 4.0 } ) { double want = power( k, p ); bool flat = false; if( !k.empty() ) for( auto it = k.begin(), m = std::next( it ); m != k.end(); ++it, ++m ) { double d = std::fabs( it->second - m->second ); flat = flat || ( d > 0 && d < 1e-2 * std::max( std::fabs( it->second ), std::fabs( m->second ) ) ); } if( !flat ) c.expectf( close( f.integral( T( p ) ), want, std::is_same<T,float>::value ? 2e-3 : 1e-8 ), "linear-integral", [&]( std::ostream& o ) { o << "p " << p << " " << f.integral( T( p ) ) << " want " << want; } ); }
    auto copy = f; c.expect( copy == f && !( copy != f ), "linear-equal" ); if( !k.empty() ) { c.expect( ( f + T( 1 ) ) != f, "linear-unequal" ); std::vector<std::pair<T,T>> twice = { { T( lo ), T( 1 ) }, { T( lo ), T( 2 ) } }; c.throws( [&] { PL<T> g( twice.begin(), twice.end() ); }, "linear-duplicate" ); }
    std::vector<T> X; f.domain( std::back_inserter( X ) ); c.expect( std::is_sorted( X.begin(), X.end() ), "linear-domain" ); for( auto& p : k ) c.expect( std::find( X.begin(), X.end(), T( p.first ) ) != X.end(), "linear-domain-knots" );
  }
  for( int step = 0; step < 7; step++ )
  {
    std::size_t i = c.rng.below( fs.size() ), j = c.rng.below( fs.size() ); auto f = fs[i], g = fs[j]; auto keepF = f, keepG = g; auto mf = model[i], mg = model[j]; int op = c.rng.range( 0, 9 ); double k = double( T( mode == 0 ? c.rng.pick( std::vector<double>{ -2, -1, 1, 2, 0.5 } ) : c.rng.real( 0.3, 3 ) ) ); T K = T( k ); PL<T> r; std::function<double( double )> m; c.desc << "op " << op << " of " << i << "," << j << " with " << k << "; ";
    bool empty = [&] { std::vector<T> X; f.domain( std::back_inserter( X ) ); return X.empty(); }();
    switch( op )
    {
    case 0: r = f + g; m = [mf, mg]( double x ) { return mf( x ) + mg( x ); }; break;
    case 1: r = f - g; m = [mf, mg]( double x ) { return mf( x ) - mg( x ); }; break;
    case 2: r = f; r += g; m = [mf, mg]( double x ) { return mf( x ) + mg( x ); }; break;
    case 3: r = f; r -= g; m = [mf, mg]( double x ) { return mf( x ) - mg( x ); }; break;
    case 4: r = -f; m = [mf]( double x ) { return -mf( x ); }; break;
    case 5: r = c.rng.chance( 0.5 ) ? f * K : K * f; m = [mf, k]( double x ) { return mf( x ) * k; }; break;
    case 6: if( c.rng.chance( 0.5 ) ) r = f / K; else { r = f; r /= K; } m = [mf, k]( double x ) { return mf( x ) / k; }; break;
    case 7: r = f; r.abs(); m = [mf]( double x ) { return std::fabs( mf( x ) ); }; break;
    case 8: if( empty ) continue; if( c.rng.chance( 0.5 ) ) r = f + K; else { r = f; r += K; } m = [mf, k]( double x ) { return mf( x ) + k; }; break;
    default: if( empty ) continue; if( c.rng.chance( 0.5 ) ) r = f - K; else { r = f; r -= K; } m = [mf, k]( double x ) { return mf( x ) - k; };
    }
    c.expect( same( f, keepF ) && same( g, keepG ), "linear-operand" );
    static const char* const keys[] = { "linear-sum", "linear-difference", "linear-sum-in-place", "linear-difference-in-place", "linear-negation", "linear-scaling", "linear-division", "linear-absolute", "linear-shift", "linear-shift-down" };
    check( r, m, keys[op] ); double top = -INF; for( double x : xs ) top = std::max( top, m( x ) ); c.expect( r.max() >= top - tol * std::max( 10.0, std::fabs( top ) ), "linear-max-result" );
    double s = 0; int N = 2000; bool big = false; for( double x : xs ) big = big || std::fabs( m( x ) ) > 1e3; if( big ) continue; bool flat = false; { std::vector<T> X, Y; r.domain( std::back_inserter( X ) ); r.image( std::back_inserter( Y ) ); for( std::size_t q = 0; q + 1 < X.size(); q++ ) { double d = std::fabs( double( Y[q+1] ) - double( Y[q] ) ); flat = flat || ( d > 0 && d < 1e-3 * std::max( std::fabs( double( Y[q] ) ), std::fabs( double( Y[q+1] ) ) ) ); } }
    if( c.k % 10 == 0 && !flat ) { for( int q = 0; q < N; q++ ) s += std::fabs( m( lo + ( hi - lo ) * ( q + 0.5 ) / N ) ) * ( hi - lo ) / N; c.expectf( std::fabs( r.integral() - s ) < 0.02 * ( 1 + s ), "linear-integral-result", [&]( std::ostream& o ) { o << r.integral() << " want about " << s; } ); }
    fs.push_back( r ); model.push_back( m );
  }
  c.throws( [&] { fs[0] / T( 0 ); }, "linear-division-by-zero" );
}

template <class T> void envelope( Ctx& c )
{
  auto A = randomDiagram( c.rng, std::size_t( c.rng.range( 0, c.k % 5 == 0 ? 80 : 8 ) ), c.rng.pick( std::vector<int>{ 0, 1, 2, 3, 6 } ) ); Knots k; PD<T> D; for( auto& p : A ) { T x = T( p.first ), y = T( p.second ); D.add( x, y ); double s = double( T( x + y ) ), d = double( T( y - x ) ); auto it = k.find( s ); if( it == k.end() ) k[s] = d; else it->second = std::max( it->second, d ); }
  int unpaired = c.rng.range( 0, 2 ); for( int i = 0; i < unpaired; i++ ) D.add( T( c.rng.range( -5, 5 ) ) ); c.desc << "points " << str( A ) << " unpaired " << unpaired; if( A.size() > 1 ) c.nontrivial( dig( A ) ); aleph::Envelope E; auto copy = D; auto f = E( D ); c.expect( copy == D, "envelope-input" ); double mag = 1; for( auto& p : k ) mag = std::max( mag, std::fabs( p.second ) );
  for( auto& p : k ) c.near( f( T( p.first ) ), p.second, 0, "envelope-point" );
  if( !k.empty() ) for( auto it = k.begin(), n = std::next( it ); n != k.end(); ++it, ++n ) if( n->first - it->first > 1e-2 ) { double x = double( T( ( it->first + n->first ) / 2 ) ); c.expect( close( f( T( x ) ), value( k, x ), std::is_same<T,float>::value ? 1e-2 : 1e-7, mag ), "envelope-between" ); }
  if( !k.empty() ) c.expect( f( T( k.begin()->first - 1 ) ) == 0 && f( T( k.rbegin()->first + 1 ) ) == 0, "envelope-outside" ); c.expect( E.removeUnpairedPoints(), "envelope-default" ); E.setRemoveUnpairedPoints( false ); c.expect( !E.removeUnpairedPoints(), "envelope-setting" );
}

} // namespace

SECTION( step, 8000, 120000 ) { if( c.k % 2 ) tree<double>( c ); else tree<float>( c ); }
SECTION( indicator, 8000, 100000 ) { if( c.k % 2 ) indicator<double>( c ); else indicator<float>( c ); }
SECTION( linear, 8000, 120000 ) { if( c.k % 2 ) linear<double>( c ); else linear<float>( c ); }
SECTION( envelope, 4000, 40000 ) { if( c.k % 2 ) envelope<double>( c ); else envelope<float>( c ); }
