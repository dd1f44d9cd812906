// Heat kernels, Laplacians, curvatures.
#include "bridge.hh"

#include <aleph/geometry/HeatKernel.hh>
#include <aleph/topology/CombinatorialCurvature.hh>
#include <aleph/topology/filtrations/Degree.hh>

using namespace vp;
using namespace aleph::topology;

namespace
{

using Mat = std::vector<std::vector<long double>>;

Mat zeros( std::size_t n ) { return Mat( n, std::vector<long double>( n, 0 ) ); }
Mat identity( std::size_t n ) { auto I = zeros( n ); for( std::size_t i = 0; i < n; i++ ) I[i][i] = 1; return I; }
Mat product( const Mat& a, const Mat& b ) { auto n = a.size(); auto r = zeros( n ); for( std::size_t i = 0; i < n; i++ ) for( std::size_t k = 0; k < n; k++ ) if( a[i][k] != 0 ) for( std::size_t j = 0; j < n; j++ ) r[i][j] += a[i][k] * b[k][j]; return r; }
long double norm( const Mat& a ) { long double m = 0; for( auto& r : a ) { long double s = 0; for( auto x : r ) s += std::fabs( x ); m = std::max( m, s ); } return m; }

// Scaling and squaring with a Taylor series
Mat exponential( Mat a )
{
  int k = 0; auto s = norm( a ); while( s > 0.25L ) { s /= 2; ++k; }
  for( auto& r : a ) for( auto& x : r ) x = std::ldexp( x, -k );
  auto E = identity( a.size() ), t = E;
  for( int i = 1; i < 30; i++ ) { t = product( t, a ); for( auto& r : t ) for( auto& x : r ) x /= i; for( std::size_t p = 0; p < a.size(); p++ ) for( std::size_t q = 0; q < a.size(); q++ ) E[p][q] += t[p][q]; }
  for( int i = 0; i < k; i++ ) E = product( E, E );
  return E;
}

std::vector<unsigned> verticesOf( const Cx& A ) { std::vector<unsigned> v; for( auto& s : A.s ) if( s.size() == 1 ) v.push_back( s[0] ); std::sort( v.begin(), v.end() ); return v; }

std::size_t components( const Cx& A )
{
  std::map<unsigned,unsigned> root; for( auto v : verticesOf( A ) ) root[v] = v; std::size_t n = root.size();
  for( auto& s : A.s ) if( s.size() == 2 ) { auto a = root[ s[0] ], b = root[ s[1] ]; if( a != b ) { --n; for( auto& kv : root ) if( kv.second == a ) kv.second = b; } }
  return n;
}

Cx weightedGraph( Ctx& c, unsigned maxId )
{
  Cx A;
  if( c.rng.chance( 0.3 ) ) { CxOptions o; o.maxVertices = 8; o.maxDim = 3; o.maxId = maxId; A = randomComplex( c.rng, o ); }
  else
  {
    auto n = static_cast<std::size_t>( c.rng.chance( 0.02 ) ? c.rng.range( 15, 30 ) : c.rng.range( 1, c.thorough ? 12 : 8 ) ); auto ids = vertexIds( c.rng, n, int( c.rng.below( 3 ) ), std::max( maxId, 40u ) ); std::map<VSet,double> W;
    for( auto v : ids ) W[ VSet{ v } ] = 0; double p = c.rng.pick( std::vector<double>{ 0.1, 0.4, 0.8, 1 } );
    for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) if( c.rng.chance( p ) ) { VSet e{ ids[i], ids[j] }; std::sort( e.begin(), e.end() ); W[e] = 1; }
    A = orderComplex( c.rng, W, true );
  }
  auto mode = c.rng.below( 3 ); for( auto& w : A.w ) w = mode == 0 ? 1.0 : mode == 1 ? c.rng.range( 1, 8 ) * 0.5 : c.rng.real( 0.25, 4 );
  // arbitrary order of the simplices
  if( c.rng.chance( 0.3 ) ) { std::vector<std::size_t> p( A.size() ); for( std::size_t i = 0; i < p.size(); i++ ) p[i] = i; c.rng.shuffle( p ); Cx B; for( auto i : p ) { B.s.push_back( A.s[i] ); B.w.push_back( A.w[i] ); } A = B; }
  return A;
}

template <class S> void heat( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType; double tol = sizeof( T ) == 4 ? 2e-4 : 1e-10;
  auto A = weightedGraph( c, maxId ); for( auto& w : A.w ) w = double( T( w ) );
  auto k = toComplex<S>( A ); auto v = verticesOf( A ); std::size_t n = v.size(); c.desc << A.text( 12 ); if( n > 1 && A.dimension() > 0 ) c.nontrivial( A.digest() );
  std::map<unsigned,std::size_t> at; for( std::size_t i = 0; i < n; i++ ) at[ v[i] ] = i;
  auto W = zeros( n ), L = zeros( n );
  for( std::size_t e = 0; e < A.size(); e++ ) if( A.s[e].size() == 2 ) { auto i = at[ A.s[e][0] ], j = at[ A.s[e][1] ]; W[i][j] = W[j][i] = A.w[e]; L[i][j] = L[j][i] = -A.w[e]; L[i][i] += A.w[e]; L[j][j] += A.w[e]; }
  auto scale = std::max( 1.0L, norm( L ) );

  using namespace aleph::geometry;
  auto same = [&]( auto&& M, const Mat& E, double t, const std::string& key )
  {
    bool ok = std::size_t( M.rows() ) == n && std::size_t( M.cols() ) == n; if( ok ) for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) ok = ok && std::fabs( (long double) M( long( i ), long( j ) ) - E[i][j] ) <= t;
    c.expectf( ok, key, [&]( std::ostream& o ) { o << M << "\nfor " << A.text(); } );
  };
  same( weightedAdjacencyMatrix( k ), W, 0, "adjacency" ); same( weightedLaplacianMatrix( k ), L, double( tol * scale ), "laplacian" );
  {
    auto P_ = pinvWeightedLaplacianMatrix( k ); bool ok = std::size_t( P_.rows() ) == n && std::size_t( P_.cols() ) == n; c.expect( ok, "pseudo-inverse-size" );
    if( ok )
    {
      auto P = zeros( n ); for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) P[i][j] = P_( long( i ), long( j ) );
      auto p = std::max( 1.0L, norm( P ) ); auto LP = product( L, P ), PL = product( P, L ), LPL = product( LP, L ), PLP = product( PL, P ); double t = double( tol * 10 * scale * p );
      auto close = [&]( const Mat& a, const Mat& b, double u ) { for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) if( !( std::fabs( a[i][j] - b[i][j] ) <= u ) ) return false; return true; };
      Mat LPt = LP, PLt = PL; for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) { LPt[i][j] = LP[j][i]; PLt[i][j] = PL[j][i]; }
      c.expect( close( LPL, L, t * double( scale ) ) && close( PLP, P, t * double( p ) ) && close( LP, LPt, t ) && close( PL, PLt, t ), "pseudo-inverse", A.text() );
    }
  }
  HeatKernel hk( k ); auto conn = components( A );
  for( int r = 0; r < 4; r++ )
  {
    double t = r == 0 ? 0 : c.rng.chance( 0.3 ) ? c.rng.pick( std::vector<double>{ 1, 1e-3, 10 } ) : c.rng.real( 0, 3 );
    Mat X = L; for( auto& row : X ) for( auto& x : row ) x *= -t; auto H = exponential( X ); double u = tol * double( scale ) * ( 1 + t ) * 4;
    long double tr = 0, trace = 0; for( std::size_t i = 0; i < n; i++ ) { tr += H[i][i]; trace -= X[i][i]; }
    auto all = hk( t ); c.eq( all.size(), n, "all-size" );
    for( std::size_t i = 0; i < n; i++ )
    {
      for( std::size_t j = 0; j < n; j++ ) c.near( hk( long( i ), long( j ), t ), double( H[i][j] ), u, "kernel", A.text() );
      c.near( hk( HeatKernel::IndexType( i ), t ), double( H[i][i] ), u, "diagonal", A.text() ); if( all.size() == n ) c.near( all[i], double( H[i][i] ), u, "all", A.text() );
    }
    c.near( hk.trace( t ), double( tr ), u * double( n ), "trace", A.text() );
    c.near( hk.determinant( t ), double( std::exp( -trace ) ), u * double( n ), "determinant", A.text() );
    if( conn == 1 && n > 1 )
    {
      HeatKernel h2( k ); h2.setSkip(); c.expect( h2.skip() && !hk.skip(), "skip" );
      c.near( h2.trace( t ), double( tr - 1 ), u * double( n ), "skip-trace", A.text() ); c.near( h2( 0, long( n - 1 ), t ), double( H[0][ n - 1 ] - 1.0L / n ), u, "skip-kernel", A.text() );
      unsigned m = unsigned( c.rng.range( 1, 9 ) ); auto s = hk.logarithmicSamplingInterval( m ), s2 = h2.logarithmicSamplingInterval( m );
      c.eq( s.size(), std::size_t( m ), "interval-size" ); bool ok = s.size() == s2.size();
      for( std::size_t i = 0; i < s.size() && ok; i++ ) { ok = ok && s[i] > 0 && std::isfinite( s[i] ) && std::fabs( s[i] - s2[i] ) <= 1e-9 * s[i]; if( i > 1 ) ok = ok && std::fabs( s[i] * s[i-2] - s[i-1] * s[i-1] ) <= 1e-6 * s[i] * s[i-2]; if( i ) ok = ok && s[i] >= s[i-1] * ( 1 - 1e-9 ); }
      c.expect( ok, "interval", str( s ) + " " + str( s2 ) );
      // the ends are determined by the largest and the smallest positive eigenvalue: at t_min, exp(-t*lambda) = 10^-4
      if( m > 1 && ok ) { auto bound = 4 * std::log( 10.0 ) / double( norm( L ) ); c.expect( s.front() >= bound * ( 1 - 1e-3 ), "interval-start" ); double mn = INF; for( std::size_t i = 0; i < n; i++ ) mn = std::min( mn, double( L[i][i] ) ); c.expect( s.back() >= 4 * std::log( 10.0 ) / ( mn * double( n ) / double( n - 1 ) ) * ( 1 - 1e-3 ), "interval-end", A.text() ); }
    }
  }
}

template <class S> void curvatures( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType;
  CxOptions o; o.maxVertices = 8; o.maxDim = 3; o.maxGenerators = 12; o.maxId = maxId;
  auto A = c.rng.chance( 0.3 ) ? weightedGraph( c, maxId ) : randomComplex( c.rng, o );
  bool unit = c.rng.chance( 0.3 ); for( auto& w : A.w ) w = unit ? 1.0 : double( T( c.rng.chance( 0.5 ) ? c.rng.range( 1, 4 ) : c.rng.real( 0.25, 4 ) ) );
  auto k = toComplex<S>( A ); c.desc << A.text( 12 ); if( A.dimension() > 0 ) c.nontrivial( A.digest() );
  auto W = weightsOf( k );
  auto contains = []( const VSet& s, const VSet& t ) { return std::includes( s.begin(), s.end(), t.begin(), t.end() ); };
  std::vector<VSet> order; { auto B = fromComplex( k ); order = B.s; }
  for( unsigned p = 1; p <= 3; p++ )
  {
    std::vector<double> a; aleph::topology::curvature( k, std::back_inserter( a ), p ); std::vector<double> b; weightedCurvature( k, std::back_inserter( b ), p );
    std::vector<VSet> P; for( auto& s : order ) if( s.size() == p + 1 ) P.push_back( s );
    c.eq( a.size(), P.size(), "curvature-size" ); c.eq( b.size(), P.size(), "weighted-size" );
    // values are reported for the simplices of one dimension; compare as multisets
    std::vector<double> ea, eb;
    for( auto& s : P )
    {
      long cofaces = 0, parallel = 0; double f = 0, g = 0;
      for( auto& kv : W ) { if( kv.first.size() == p + 2 && contains( kv.first, s ) ) { ++cofaces; f += W[s] / kv.second; } if( kv.first.size() == p && contains( s, kv.first ) ) f += kv.second / W[s]; }
      for( auto& t : P ) if( t != s )
      {
        bool face = false, coface = false; double d = 0, w = std::sqrt( W[s] * W[t] );
        for( auto& kv : W ) { if( kv.first.size() == p + 2 && contains( kv.first, s ) && contains( kv.first, t ) ) { coface = true; d += w / kv.second; } if( kv.first.size() == p && contains( s, kv.first ) && contains( t, kv.first ) ) { face = true; d -= kv.second / w; } }
        parallel += face != coface; g += std::fabs( d );
      }
      ea.push_back( double( cofaces + long( s.size() ) - parallel ) ); eb.push_back( W[s] * ( f - g ) );
    }
    for( auto* x : { &a, &b, &ea, &eb } ) std::sort( x->begin(), x->end() );
    c.expect( a == ea, "curvature", "p=" + std::to_string( p ) + " " + str( a ) + " expected " + str( ea ) + " for " + A.text() );
    bool ok = b.size() == eb.size(); for( std::size_t i = 0; i < b.size() && ok; i++ ) ok = std::fabs( b[i] - eb[i] ) <= ( sizeof( T ) == 4 ? 1e-3 : 1e-10 ) * ( 1 + std::fabs( eb[i] ) );
    c.expect( ok, "weighted", "p=" + std::to_string( p ) + " " + str( b ) + " expected " + str( eb ) + " for " + A.text() );
  }
  int n = A.dimension();
  if( n >= 2 )
  {
    std::vector<double> d, e; angleDefectCurvature( k, std::back_inserter( d ) );
    for( auto& s : order ) if( int( s.size() ) == n - 1 ) { int m = 0; for( auto& t : order ) m += int( t.size() ) == n + 1 && contains( t, s ); e.push_back( 2 * M_PI - std::acos( 1.0 / n ) * m ); }
    std::sort( d.begin(), d.end() ); std::sort( e.begin(), e.end() );
    bool ok = d.size() == e.size(); for( std::size_t i = 0; i < d.size() && ok; i++ ) ok = std::fabs( d[i] - e[i] ) < 1e-9; c.expect( ok, "angle-defect", str( d ) + " expected " + str( e ) + " for " + A.text() );
  }
  // degrees of a vertex are the numbers of its cofaces
  std::vector<double> d, e; filtrations::degrees( k, std::back_inserter( d ) );
  for( auto v : verticesOf( A ) ) { int m = 0; for( auto& t : order ) m += t.size() > 1 && contains( t, VSet{ v } ); e.push_back( m ); }
  c.expect( d == e, "degrees", str( d ) + " expected " + str( e ) + " for " + A.text() );
}

} // namespace

SECTION( heat, 4000, 60000 )       { switch( c.k % 3 ) { case 0: heat<Simplex<double,unsigned>>( c, 100000 ); break; case 1: heat<Simplex<float,unsigned short>>( c, 60000 ); break; default: heat<Simplex<double,unsigned>>( c, 20 ); } }
SECTION( curvatures, 6000, 80000 ) { switch( c.k % 4 ) { case 0: curvatures<Simplex<double,unsigned>>( c, 100000 ); break; case 1: curvatures<Simplex<float,unsigned short>>( c, 60000 ); break; case 2: curvatures<Simplex<double,short>>( c, 30000 ); break; default: curvatures<Simplex<double,unsigned>>( c, 20 ); } }
