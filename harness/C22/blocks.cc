// Bootstrap, principal components, combinations, matrices and spheres.
#include "bridge.hh"

#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/math/Bootstrap.hh>
#include <aleph/math/Combinations.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>
#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/SymmetricMatrix.hh>

#include <boost/math/distributions/students_t.hpp>

#include <list>

using namespace vp;

namespace
{

// A statistic that records its samples and returns prescribed values, such
// that all derived quantities are known regardless of the drawn samples.
struct Recorder
{
  std::vector<std::vector<int>>* samples; std::vector<double>* values;
  template <class I> double operator()( I a, I b ) const { samples->emplace_back( a, b ); return ( *values )[ ( samples->size() - 1 ) % values->size() ]; }
};

SECTION( bootstrap, 10000, 100000 )
{
  std::size_t n = std::size_t( c.rng.range( 1, 12 ) ); unsigned B = unsigned( c.rng.range( 2, 120 ) ); double alpha = c.rng.pick( std::vector<double>{ 0.01, 0.05, 0.1, 0.2, 0.5, 0.9, 1.0, c.rng.real( 0.001, 0.999 ), 0.0 } ); std::vector<int> data; for( std::size_t i = 0; i < n; i++ ) data.push_back( 100 + int( i ) * 7 ); c.rng.shuffle( data ); const auto copy = data;
  std::vector<double> values; for( unsigned i = 0; i < B + 2; i++ ) values.push_back( c.rng.chance( 0.3 ) ? c.rng.range( -3, 3 ) : c.rng.real( -50, 50 ) ); std::vector<std::vector<int>> S; Recorder f{ &S, &values }; aleph::math::Bootstrap b;
  std::string w = "data " + str( data ) + " samples " + std::to_string( B ) + " alpha " + std::to_string( alpha ) + " statistic " + str( values ); c.desc << w; std::uint64_t h = combine( B, hashDouble( alpha ) ); for( auto x : values ) h = combine( h, hashDouble( x ) ); c.nontrivial( h );
  auto verifySamples = [&]( std::size_t first, std::size_t count )
  {
    c.eq( S.size() - first, count, "replicates", w ); bool ok = true; for( std::size_t i = first; i < S.size(); i++ ) { ok = ok && S[i].size() == n; for( auto x : S[i] ) ok = ok && std::find( data.begin(), data.end(), x ) != data.end(); } c.expect( ok, "samples-from-data", w ); c.expect( data == copy, "data-modified", w );
  };
  // Values of statistic in the order of calls; the first call may be the statistic of the data itself
  auto used = [&]( std::size_t first ){ std::vector<double> u; for( std::size_t i = first; i < S.size(); i++ ) u.push_back( values[ i % values.size() ] ); return u; };
  {
    std::vector<double> r; b.makeReplicates( B, data.begin(), data.end(), f, std::back_inserter( r ) ); verifySamples( 0, B ); c.expect( r == used( 0 ), "replicate-values", w );
    std::vector<int> none; std::vector<double> q; S.clear(); b.makeReplicates( B, none.begin(), none.end(), f, std::back_inserter( q ) ); c.expect( q.empty() && S.empty(), "no-data", w );
  }
  // Admissible order statistics for a percentile
  auto order = [&]( std::vector<double> v, double p )
  {
    std::sort( v.begin(), v.end() ); std::vector<double> r; for( double t : { p - 1e-9, p, p + 1e-9 } ) { long i = long( std::ceil( v.size() * t ) ) - 1; i = std::max( 0L, std::min( i, long( v.size() ) - 1 ) ); r.push_back( v[ std::size_t( i ) ] ); } return r;
  };
  auto among = [&]( double x, const std::vector<double>& v, double offset, double sign, const std::string& key ){ bool ok = false; for( auto y : v ) ok = ok || Ctx::close( x, offset + sign * y, 1e-12 ); c.expect( ok, key, w + " actual " + std::to_string( x ) + " order statistics " + str( v ) ); };
  {
    S.clear(); auto p = b.percentileConfidenceInterval( B, alpha, data.begin(), data.end(), f ); verifySamples( 0, B ); auto u = used( 0 ); among( p.first, order( u, alpha / 2 ), 0, 1, "percentile-lower" ); among( p.second, order( u, 1 - alpha / 2 ), 0, 1, "percentile-upper" );
  }
  {
    S.clear(); auto p = b.basicConfidenceInterval( B, alpha, data.begin(), data.end(), f ); verifySamples( 1, B ); c.expect( S[0] == data, "statistic-of-data", w ); auto u = used( 1 ); double theta = values[0]; among( p.first, order( u, 1 - alpha / 2 ), 2 * theta, -1, "basic-lower" ); among( p.second, order( u, alpha / 2 ), 2 * theta, -1, "basic-upper" );
  }
  long double se = 0;
  auto error = [&]( const std::vector<double>& u ){ long double m = 0, s = 0; for( auto x : u ) m += x; m /= u.size(); for( auto x : u ) s += ( x - m ) * ( x - m ); return std::sqrt( s / ( u.size() - 1 ) ); };
  { S.clear(); double r = b.standardError( B, data.begin(), data.end(), f ); verifySamples( 0, B ); se = error( used( 0 ) ); c.near( r, double( se ), 1e-10, "standard-error", w ); }
  if( n > 1 && alpha > 0 && alpha < 1 )
  {
    S.clear(); auto p = b.studentConfidenceInterval( B, alpha, data.begin(), data.end(), f ); verifySamples( 1, B ); se = error( used( 1 ) ); boost::math::students_t t( double( n - 1 ) ); double q = boost::math::quantile( t, 1 - alpha );
    c.near( p.first, double( values[0] - q * se ), 1e-8, "student-lower", w ); c.near( p.second, double( values[0] + q * se ), 1e-8, "student-upper", w );
  }
}

SECTION( resampling, 200, 1000 )
{
  // Every element is drawn, samples repeat elements, and frequencies are even.
  std::size_t n = std::size_t( c.rng.range( 2, 10 ) ); unsigned B = 4000; std::vector<int> data; for( std::size_t i = 0; i < n; i++ ) data.push_back( int( i ) ); std::vector<std::vector<int>> S; std::vector<double> values { 0 }, r; aleph::math::Bootstrap().makeReplicates( B, data.begin(), data.end(), Recorder{ &S, &values }, std::back_inserter( r ) );
  std::vector<double> count( n ), first( n ); bool repeated = false; for( auto& s : S ) { std::set<int> u( s.begin(), s.end() ); repeated = repeated || u.size() < s.size(); for( auto x : s ) count.at( std::size_t( x ) )++; first.at( std::size_t( s.front() ) )++; }
  double p = 1.0 / double( n ), N = double( B ) * double( n ), bound = 9 * std::sqrt( N * p * ( 1 - p ) ), bound1 = 9 * std::sqrt( B * p * ( 1 - p ) ); c.desc << n << " elements, counts " << str( count ); c.nontrivial( combine( n, c.k ) );
  c.expect( repeated, "with-replacement", c.desc.str() ); for( auto x : count ) c.expect( std::fabs( x - N * p ) < bound, "frequency", c.desc.str() ); for( auto x : first ) c.expect( std::fabs( x - B * p ) < bound1, "first-frequency", c.desc.str() );
}

template <class T> void pca( Ctx& c )
{
  std::size_t n = std::size_t( c.rng.range( 1, 25 ) ), m = std::size_t( c.rng.range( 1, 7 ) ); std::vector<std::vector<T>> M( n, std::vector<T>( m ) ); double offset = c.rng.chance( 0.3 ) ? 50 : 0; int mode = c.rng.range( 0, 3 );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < m; j++ ) M[i][j] = T( offset + ( mode == 0 ? c.rng.normal() : mode == 1 ? c.rng.range( -3, 3 ) : mode == 2 ? c.rng.normal() * std::pow( 3.0, double( j ) ) : double( i ) * double( j + 1 ) ) );
  auto copy = M; auto r = aleph::math::PrincipalComponentAnalysis()( M ); std::size_t k = std::min( n, m ); std::string w = str( M ); c.desc << w; std::uint64_t h = n; for( auto& x : M ) for( auto y : x ) h = combine( h, hashDouble( double( y ) ) ); if( n > 1 ) c.nontrivial( h );
  c.eq( r.singularValues.size(), k, "values-size", w ); c.eq( r.components.size(), k, "components-size", w ); c.expect( M == copy, "pca-input", w ); if( r.singularValues.size() != k || r.components.size() != k ) return;
  std::vector<long double> mu( m ); long double total = 0; for( auto& x : M ) for( std::size_t j = 0; j < m; j++ ) mu[j] += static_cast<long double>( x[j] ) / n; double den = n > 1 ? double( n - 1 ) : 1; for( auto& x : M ) for( std::size_t j = 0; j < m; j++ ) total += ( x[j] - mu[j] ) * ( x[j] - mu[j] ) / den;
  double eps = ( std::is_same<T,float>::value ? 2e-4 : 1e-9 ), tol = eps * std::max( 1.0, double( total ) + offset * 1e-2 ); double sum = 0;
  for( std::size_t a = 0; a < k; a++ )
  {
    double s = double( r.singularValues[a] ); sum += s * s; c.expect( s >= 0 && ( !a || r.singularValues[a] <= r.singularValues[a-1] * T( 1 + eps ) + T( tol ) ), "values-order", w ); c.eq( r.components[a].size(), m, "component-length", w ); if( r.components[a].size() != m ) return;
    for( std::size_t b = 0; b <= a; b++ ) { double dot = 0; for( std::size_t j = 0; j < m; j++ ) dot += double( r.components[a][j] ) * double( r.components[b][j] ); c.expectf( std::fabs( dot - ( a == b ) ) < ( std::is_same<T,float>::value ? 1e-4 : 1e-10 ), "orthonormal", [&]( std::ostream& o ){ o << w << " components " << a << "," << b << " product " << dot; } ); }
    long double var = 0; for( auto& x : M ) { long double q = 0; for( std::size_t j = 0; j < m; j++ ) q += ( x[j] - mu[j] ) * r.components[a][j]; var += q * q / den; } c.expectf( std::fabs( double( var ) - s * s ) <= tol, "component-variance", [&]( std::ostream& o ){ o << w << " component " << a << " explains " << double( var ) << " singular value squared " << s * s; } );
  }
  c.expectf( std::fabs( sum - double( total ) ) <= tol, "total-variance", [&]( std::ostream& o ){ o << w << " sum " << sum << " total " << double( total ); } );
  std::vector<std::vector<T>> none; auto e = aleph::math::PrincipalComponentAnalysis()( none ); c.expect( e.components.empty() && e.singularValues.empty(), "pca-empty" );
}

SECTION( components, 10000, 100000 ) { if( c.k % 4 == 3 ) pca<float>( c ); else pca<double>( c ); }

// Arrangements ----------------------------------------------------------

using Seq = std::vector<int>;
Seq canonical( Seq s, int kind )
{
  auto rotated = []( Seq t ){ if( t.empty() ) return t; Seq best = t; for( std::size_t i = 0; i < t.size(); i++ ) { std::rotate( t.begin(), t.begin() + 1, t.end() ); best = std::min( best, t ); } return best; };
  Seq r( s.rbegin(), s.rend() );
  switch( kind ) { case 0: std::sort( s.begin(), s.end() ); return s; case 1: return s; case 2: return rotated( s ); case 3: return std::min( s, r ); default: return std::min( rotated( s ), rotated( r ) ); }
}

template <class C> void arrangements( Ctx& c, int kind, std::size_t n, std::size_t k, const std::string& what )
{
  using namespace aleph::math; C v; for( std::size_t i = 0; i < n; i++ ) v.push_back( int( i ) * 3 + 1 ); const C copy = v; std::set<Seq> seen; std::uint64_t calls = 0; bool sizes = true, values = true, inPlace = true; std::uint64_t stop = 0; using It = typename C::iterator;
  auto first = v.begin(), mid = std::next( v.begin(), std::ptrdiff_t( k ) ), last = v.end();
  auto f = [&]( It a, It b ){ Seq s( a, b ); calls++; sizes = sizes && s.size() == k; std::set<int> u( s.begin(), s.end() ); values = values && u.size() == s.size(); for( auto x : u ) values = values && std::find( copy.begin(), copy.end(), x ) != copy.end(); inPlace = inPlace && a == first; seen.insert( canonical( s, kind ) ); return stop && calls == stop; };
  auto run = [&]{ switch( kind ) { case 0: for_each_combination( first, mid, last, f ); break; case 1: for_each_permutation( first, mid, last, f ); break; case 2: for_each_circular_permutation( first, mid, last, f ); break; case 3: for_each_reversible_permutation( first, mid, last, f ); break; default: for_each_reversible_circular_permutation( first, mid, last, f ); } };
  // (n choose k) times the number of arrangements of k elements
  std::uint64_t comb = 1; for( std::size_t i = 1; i <= k; i++ ) comb = comb * ( n - k + i ) / i; std::uint64_t fac = 1; for( std::size_t i = 2; i <= k; i++ ) fac *= i;
  std::uint64_t per = kind == 0 ? 1 : kind == 1 ? fac : kind == 2 ? ( k ? fac / k : 1 ) : kind == 3 ? ( k > 1 ? fac / 2 : fac ) : ( k == 0 ? 1 : k <= 2 ? fac / k : fac / k / 2 ), expected = comb * per;
  run(); c.eq( calls, expected, "calls", what ); c.eq( seen.size(), std::size_t( expected ), "distinct", what ); c.expect( sizes && values && inPlace, "elements", what ); c.expect( v == copy, "restored", what );
  std::uintmax_t u = 0, t = 0; auto a = std::uint64_t( k ), b = std::uint64_t( n - k );
  switch( kind ) { case 0: u = count_each_combination( a, b ); t = count_each_combination( first, mid, last ); break; case 1: u = count_each_permutation( a, b ); t = count_each_permutation( first, mid, last ); break; case 2: u = count_each_circular_permutation( a, b ); t = count_each_circular_permutation( first, mid, last ); break; case 3: u = count_each_reversible_permutation( a, b ); t = count_each_reversible_permutation( first, mid, last ); break; default: u = count_each_reversible_circular_permutation( a, b ); t = count_each_reversible_circular_permutation( first, mid, last ); }
  c.eq( u, std::uintmax_t( expected ), "count", what ); c.eq( t, std::uintmax_t( expected ), "count-range", what );
  if( expected > 1 ) { stop = 1 + c.rng.below( expected - 1 ); calls = 0; seen.clear(); run(); c.eq( calls, stop, "early-stop", what ); Seq s( v.begin(), v.end() ), o( copy.begin(), copy.end() ); std::sort( s.begin(), s.end() ); c.expect( s == o, "early-stop-elements", what ); }
}

SECTION( arrangements, 4800, 24000 )
{
  int kind = int( c.k % 5 ); std::size_t n = std::size_t( c.rng.range( 0, kind == 0 ? 11 : 7 ) ), k = std::size_t( c.rng.range( kind == 4 ? std::min( 1, int( n ) ) : 0, int( n ) ) ); if( kind == 4 && !k ) throw Skip();
  std::string w = "kind " + std::to_string( kind ) + " " + std::to_string( k ) + " of " + std::to_string( n ); c.desc << w; if( n > 1 ) c.nontrivial( combine( std::uint64_t( kind ), n * 32 + k ) );
  if( c.rng.chance( 0.3 ) ) arrangements<std::list<int>>( c, kind, n, k, "list " + w ); else arrangements<std::vector<int>>( c, kind, n, k, w );
}

SECTION( counting, 4000, 40000 )
{
  // Counts by 128 bit arithmetic; overflow is reported by an exception
  using namespace aleph::math; using Big = unsigned __int128; std::uint64_t a = std::uint64_t( c.rng.range( 0, 40 ) ), b = std::uint64_t( c.rng.range( 0, 40 ) ); std::string w = std::to_string( a ) + "," + std::to_string( b ); c.desc << w; c.nontrivial( a * 64 + b );
  const Big limit = std::numeric_limits<std::uint64_t>::max(), cap = Big( 1 ) << 100; Big comb = 1; for( std::uint64_t i = 1; i <= a; i++ ) comb = comb * ( b + i ) / i; // fits into 128 bit for these sizes
  auto verify = [&]( std::function<std::uint64_t()> f, Big e, const std::string& key )
  {
    bool thrown = false; std::uint64_t r = 0; try { r = f(); } catch( const std::overflow_error& ) { thrown = true; }
    c.expect( e > limit ? thrown : ( !thrown && Big( r ) == e ), key, w + ( thrown ? " overflow" : " result " + std::to_string( r ) ) );
  };
  verify( [&]{ return count_each_combination( a, b ); }, comb, "combinations" );
  Big perm = 1; for( std::uint64_t i = b + 1; i <= a + b && perm < cap; i++ ) perm *= i; if( perm < cap ) verify( [&]{ return count_each_permutation( a, b ); }, perm, "permutations" );
  if( perm < cap && a ) { Big circ = perm / a; if( circ <= limit ) verify( [&]{ return count_each_circular_permutation( a, b ); }, circ, "circular" ); Big rev = a > 1 ? perm / 2 : perm; if( rev <= limit ) verify( [&]{ return count_each_reversible_permutation( a, b ); }, rev, "reversible" ); Big rc = a <= 2 ? circ : circ / 2; if( rc <= limit ) verify( [&]{ return count_each_reversible_circular_permutation( a, b ); }, rc, "reversible-circular" ); }
  int x = c.rng.range( -5, 12 ), y = c.rng.range( -5, 12 ); if( x < 0 || y < 0 ) c.throws( [&]{ count_each_combination( x, y ); }, "negative", std::to_string( x ) + "," + std::to_string( y ) );
}

// Matrices ----------------------------------------------------------------

template <class T> void symmetric( Ctx& c )
{
  using M = aleph::math::SymmetricMatrix<T>; using Model = std::vector<std::vector<T>>; std::vector<M> m; std::vector<Model> r; std::string log; std::uint64_t h = 0;
  auto fresh = [&]( std::size_t n ){ m.emplace_back( n ); r.emplace_back( n, std::vector<T>( n ) ); }; fresh( std::size_t( c.rng.range( 0, 8 ) ) ); m.emplace_back(); r.emplace_back();
  auto same = [&]( const M& A, const Model& B )
  {
    c.eq( A.numRows(), B.size(), "rows", log ); c.eq( A.size(), B.size() * ( B.size() + 1 ) / 2, "storage", log ); c.eq( A.empty(), B.empty(), "empty", log );
    for( std::size_t i = 0; i < B.size(); i++ ) for( std::size_t j = 0; j < B.size(); j++ ) c.expectf( A( i, j ) == B[i][j], "entry", [&]( std::ostream& o ){ o << log << " (" << i << "," << j << ") is " << A( i, j ) << " expected " << B[i][j]; } );
    c.throws( [&]{ A( B.size(), 0 ); }, "row-range", log ); c.throws( [&]{ A( 0, B.size() ); }, "column-range", log );
  };
  for( int s = 0, steps = c.rng.range( 3, 25 ); s < steps; s++ )
  {
    std::size_t a = c.rng.below( m.size() ), b = c.rng.below( m.size() ); int op = c.rng.range( 0, 8 ); log += " " + std::to_string( op ) + ":" + std::to_string( a ) + "," + std::to_string( b ); h = combine( h, std::uint64_t( op ) * 64 + a * 8 + b );
    if( op <= 4 && r[a].size() ) { std::size_t i = c.rng.below( r[a].size() ), j = c.rng.below( r[a].size() ); T x = T( c.rng.range( -50, 50 ) ); m[a]( i, j ) = x; r[a][i][j] = r[a][j][i] = x; h = combine( h, i * 100 + j ); }
    else if( op == 5 && m.size() < 6 ) fresh( std::size_t( c.rng.range( 0, 8 ) ) );
    else if( op == 6 ) { m[a] = m[b]; r[a] = r[b]; }
    else if( op == 7 ) { m[a].swap( m[b] ); std::swap( r[a], r[b] ); }
    else if( op == 8 ) { M k( m[b] ); same( k, r[b] ); if( r[b].size() ) { k( 0, 0 ) = T( 77 ); same( m[b], r[b] ); } }
    same( m[a], r[a] ); same( m[b], r[b] );
  }
  std::ostringstream o, e; o << m[0]; for( auto& row : r[0] ) { for( std::size_t j = 0; j < row.size(); j++ ) e << ( j ? " " : "" ) << row[j]; e << "\n"; } c.eq( o.str(), e.str(), "printed", log ); c.desc << log; c.nontrivial( h );
}

SECTION( symmetric, 10000, 100000 ) { if( c.k % 3 == 2 ) symmetric<int>( c ); else symmetric<double>( c ); }

SECTION( sparse, 10000, 100000 )
{
  using M = aleph::math::SparseBinaryMatrix<unsigned>; unsigned n = unsigned( c.rng.range( 0, 9 ) ); M m( n ); std::vector<std::set<unsigned>> r( n ); std::string log = std::to_string( n ) + " columns"; std::uint64_t h = n;
  for( int s = 0, steps = c.rng.range( 1, 30 ); s < steps && n; s++ ) { unsigned i = unsigned( c.rng.chance( 0.2 ) ? c.rng.range( 0, 100000 ) : c.rng.range( 0, 9 ) ), j = unsigned( c.rng.below( n ) ); m.set( i, j ); r[j].insert( i ); h = combine( h, i * 16 + j ); log += " (" + std::to_string( i ) + "," + std::to_string( j ) + ")"; }
  c.eq( m.numColumns(), std::size_t( n ), "columns", log ); if( c.rng.chance( 0.5 ) ) { M k( m ); if( n ) { k.set( 200001, 0 ); c.expect( !m.get( 200001u, 0u ), "copy-shared", log ); } }
  for( unsigned j = 0; j < n; j++ )
  {
    std::vector<unsigned> v; m.get( j, std::back_inserter( v ) ); c.expect( v == std::vector<unsigned>( r[j].begin(), r[j].end() ), "column", log ); c.eq( m.numEntries( j ), r[j].size(), "entries", log ); for( unsigned i = 0; i < 12; i++ ) c.eq( m.get( i, j ), r[j].count( i ) > 0, "entry", log ); c.eq( m.getIndex( j ), j, "default-index", log );
  }
  c.throws( [&]{ m.set( 0, n ); }, "set-range", log ); c.throws( [&]{ m.get( 0u, n ); }, "get-range", log ); c.throws( [&]{ m.numEntries( n ); }, "entries-range", log );
  std::vector<unsigned> idx; for( unsigned j = 0; j < n; j++ ) idx.push_back( unsigned( c.rng.range( 0, 1000 ) ) ); m.setIndices( idx.begin(), idx.end() ); for( unsigned j = 0; j < n; j++ ) c.eq( m.getIndex( j ), idx[j], "index", log ); idx.push_back( 1 ); c.throws( [&]{ M k( n ); k.setIndices( idx.begin(), idx.end() ); }, "indices-length", log );
  c.desc << log; if( n ) c.nontrivial( h );
}

SECTION( sphere, 8000, 80000 )
{
  // s |x|^2 + b.x + a = 0 for a known centre and radius
  std::size_t d = std::size_t( c.rng.range( 1, 5 ) ); double R = std::pow( 10.0, c.rng.real( -1, 1 ) ), s = c.rng.real( 0.1, 5 ) * ( c.rng.chance( 0.5 ) ? 1 : -1 ); std::vector<double> m( d ), u; for( auto& x : m ) x = c.rng.real( -3, 3 ); double n2 = 0; for( auto x : m ) n2 += x * x;
  u.push_back( s * ( n2 - R * R ) ); for( auto x : m ) u.push_back( -2 * s * x ); u.push_back( s ); std::string w = "centre " + str( m ) + " radius " + std::to_string( R ) + " coefficients " + str( u ); c.desc << w; c.nontrivial( combine( hashDouble( R ), hashDouble( s ) ) );
  aleph::math::AlgebraicSphere<double> S( u.begin(), u.end() ); bool radiusFirst = c.rng.chance( 0.5 ); double r = radiusFirst ? S.radius() : 0; auto z = S.centre(); if( !radiusFirst ) r = S.radius(); double tol = 1e-9 * ( 1 + n2 / ( R * R ) );
  c.eq( z.size(), d, "centre-size", w ); for( std::size_t i = 0; i < std::min( d, z.size() ); i++ ) c.near( z[i], m[i], 1e-9, "centre", w + " found " + str( z ) ); c.near( r, R, tol, "radius", w ); c.near( S.radius(), R, tol, "radius-again", w ); c.near( S.meanCurvature(), 1 / R, tol * 100, "mean-curvature", w ); c.near( S.gaussianCurvature(), 1 / ( R * R ), tol * 1000, "gaussian-curvature", w );
  auto S2 = S; c.near( S2.radius(), R, tol, "copied-radius", w ); u.back() = 0; aleph::math::AlgebraicSphere<double> P( u.begin(), u.end() ); c.eq( P.meanCurvature(), 0.0, "plane", w ); c.eq( P.gaussianCurvature(), 0.0, "plane", w );
  std::vector<double> few( u.begin(), u.begin() + 2 ); c.throws( [&]{ aleph::math::AlgebraicSphere<double> X( few.begin(), few.end() ); }, "few-coefficients" );
}

} // namespace
