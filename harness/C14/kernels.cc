#include "bridge.hh"
#include "dgm.hh"

#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

using namespace vp;
template <class T> using PD = aleph::PersistenceDiagram<T>;

namespace
{

template <class T> PD<T> make( Pts& A ) { PD<T> D; for( auto& p : A ) { p = { double( T( p.first ) ), double( T( p.second ) ) }; D.add( T( p.first ), T( p.second ) ); } return D; }
double sq( double a ) { return a * a; }
double smallestEigenvalue( std::vector<std::vector<double>> M )
{
  std::size_t n = M.size(); for( int sweep = 0; sweep < 60; sweep++ ) { double off = 0; for( std::size_t p = 0; p < n; p++ ) for( std::size_t q = p + 1; q < n; q++ ) { off += sq( M[p][q] ); if( std::fabs( M[p][q] ) < 1e-300 ) continue; double th = ( M[q][q] - M[p][p] ) / ( 2 * M[p][q] ), t = ( th >= 0 ? 1 : -1 ) / ( std::fabs( th ) + std::sqrt( th * th + 1 ) ), cs = 1 / std::sqrt( t * t + 1 ), sn = t * cs; for( std::size_t k = 0; k < n; k++ ) { double a = M[k][p], b = M[k][q]; M[k][p] = cs * a - sn * b; M[k][q] = sn * a + cs * b; } for( std::size_t k = 0; k < n; k++ ) { double a = M[p][k], b = M[q][k]; M[p][k] = cs * a - sn * b; M[q][k] = sn * a + cs * b; } } if( off < 1e-30 ) break; }
  double e = INF; for( std::size_t i = 0; i < n; i++ ) e = std::min( e, M[i][i] ); return e;
}

template <class T> struct Family { std::vector<Pts> A; std::vector<PD<T>> D; };
template <class T> Family<T> family( Ctx& c, bool upper )
{
  Family<T> f; int n = c.rng.range( 2, 6 ); std::uint64_t h = 0; int mode = upper ? c.rng.pick( std::vector<int>{ 0, 1, 2, 6 } ) : c.rng.pick( std::vector<int>{ 0, 1, 2, 3, 5, 6 } );
  for( int i = 0; i < n; i++ ) { Pts A; if( i > 0 && c.rng.chance( 0.2 ) ) { A = f.A[ c.rng.below( f.A.size() ) ]; c.rng.shuffle( A ); } else A = randomDiagram( c.rng, std::size_t( c.rng.range( 0, c.k % 6 == 0 ? 40 : 7 ) ), mode ); if( std::is_integral<T>::value ) for( auto& p : A ) p = { std::floor( p.first ), std::floor( p.second ) }; f.D.push_back( make<T>( A ) ); f.A.push_back( A ); h = combine( h, dig( A ) ); c.desc << str( A ) << " "; }
  c.nontrivial( h ); return f;
}

using Kernel = std::function<double( const Pts&, const Pts& )>;
struct Both { double value, magnitude; };

// Monitors closed form, symmetry and the Gram matrix of one kernel
template <class T, class F, class G> void gram( Ctx& c, const Family<T>& f, F actual, G model, const std::string& key, double rel, std::vector<std::vector<double>>& K, double& scale )
{
  std::size_t n = f.D.size(); K.assign( n, std::vector<double>( n ) ); scale = 1e-300;
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) { Both m = model( f.A[i], f.A[j] ); K[i][j] = actual( f.D[i], f.D[j] ); scale = std::max( scale, m.magnitude ); c.expectf( std::fabs( K[i][j] - m.value ) <= rel * std::max( m.magnitude, 1e-300 ) + 1e-300, key + "-value", [&]( std::ostream& o ) { o << i << "," << j << " " << strx( K[i][j] ) << " want " << strx( m.value ); } ); }
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) c.expect( std::fabs( K[i][j] - K[j][i] ) <= rel * scale, key + "-symmetry" );
  auto M = K; for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < i; j++ ) M[i][j] = M[j][i] = ( K[i][j] + K[j][i] ) / 2; double e = smallestEigenvalue( M ); c.expectf( e >= -1e-9 * scale * double( n ) - rel * scale * double( n ), key + "-positive", [&]( std::ostream& o ) { o << "eigenvalue " << e << " scale " << scale; } );
}

template <class T, class F> void metric( Ctx& c, const Family<T>& f, F d, const std::vector<std::vector<double>>& K, double scale, double rel, const std::string& key )
{
  std::size_t n = f.D.size(); std::vector<std::vector<double>> d2( n, std::vector<double>( n ) ); double slack = std::sqrt( rel * scale ) * 8;
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ )
  {
    double x = d( f.D[i], f.D[j] ); d2[i][j] = x; c.expectf( std::isfinite( x ) && x >= 0, key + "-finite", [&]( std::ostream& o ) { o << x; } ); double want = std::max( 0.0, K[i][i] + K[j][j] - 2 * K[i][j] ); c.expectf( std::fabs( x * x - want ) <= rel * 16 * scale, key + "-value", [&]( std::ostream& o ) { o << i << "," << j << " " << strx( x ) << " want " << strx( std::sqrt( want ) ); } );
    auto a = f.A[i], b = f.A[j]; std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() ); if( a == b ) c.expectf( x <= slack, key + "-identical", [&]( std::ostream& o ) { o << x; } );
  }
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) { c.expect( std::fabs( d2[i][j] - d2[j][i] ) <= slack, key + "-symmetry" ); for( std::size_t k = 0; k < n; k++ ) c.expect( d2[i][k] <= d2[i][j] + d2[j][k] + slack, key + "-triangle" ); }
}

template <class T> void multi( Ctx& c )
{
  auto f = family<T>( c, false ); double sigma = c.rng.pick( std::vector<double>{ 0.01, 0.1, 0.5, 1, 2, 10, 100 } ), rel = std::is_same<T,float>::value ? 1e-3 : 1e-11; if( c.rng.chance( 0.3 ) ) sigma = c.rng.real( 0.05, 5 ); c.desc << "sigma " << sigma; if( std::is_same<T,float>::value ) sigma = std::max( sigma, 0.5 );
  auto sum = []( const Pts& A, const Pts& B, double s ) { long double v = 0; for( auto& p : A ) for( auto& q : B ) v += std::exp( -( sq( p.first - q.first ) + sq( p.second - q.second ) ) / s ) - std::exp( -( sq( p.first - q.second ) + sq( p.second - q.first ) ) / s ); double n = double( A.size() * B.size() ); return Both{ double( v ) / ( M_PI * s ), n / ( M_PI * s ) }; };
  std::vector<std::vector<double>> K; double scale; gram( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::multiScaleKernel( D, E, sigma ); }, [&]( const Pts& A, const Pts& B ) { return sum( A, B, 8 * sigma ); }, "multi-scale", rel, K, scale );
  metric( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::multiScalePseudoMetric( D, E, sigma ); }, K, scale, rel, "multi-scale-metric" );
  for( std::size_t i = 0; i < f.D.size(); i++ ) { Both m = sum( f.A[i], f.A[i], 4 * sigma ); c.near( aleph::multiScaleFeatureMap( f.D[i], sigma ), m.value, rel * m.magnitude, "feature-map" ); }
}

struct Weight { double C, p; template <class P> double operator()( const P& q ) const { return std::atan( C * std::pow( std::fabs( double( q.y() ) - double( q.x() ) ), p ) ); } };
struct Gauss { double sigma; template <class P> double operator()( const P& p, const P& q ) const { return std::exp( -( sq( double( p.x() ) - double( q.x() ) ) + sq( double( p.y() ) - double( q.y() ) ) ) / ( 2 * sigma * sigma ) ); } };
struct Product { template <class P> double operator()( const P& p, const P& q ) const { return double( p.x() ) * double( q.x() ) + double( p.y() ) * double( q.y() ) + 1; } };

template <class T> void weighted( Ctx& c )
{
  auto f = family<T>( c, true ); double sigma = c.rng.pick( std::vector<double>{ 0.1, 0.5, 1, 3, 20 } ), C = c.rng.pick( std::vector<double>{ 0.1, 1, 4 } ), p = c.rng.pick( std::vector<double>{ 1, 2, 0.5, 3 } ), tau = c.rng.pick( std::vector<double>{ 0.5, 1, 5 } ), rel = std::is_same<T,float>::value ? 1e-3 : 1e-11; if( std::is_same<T,float>::value ) sigma = std::max( sigma, 0.5 ); c.desc << "sigma " << sigma << " C " << C << " p " << p << " tau " << tau;
  auto w = [&]( std::pair<double,double> q ) { return std::atan( C * std::pow( q.second - q.first, p ) ); };
  auto linear = [&]( const Pts& A, const Pts& B ) { long double v = 0; for( auto& a : A ) for( auto& b : B ) v += w( a ) * w( b ) * std::exp( -( sq( a.first - b.first ) + sq( a.second - b.second ) ) / ( 2 * sigma * sigma ) ); return Both{ double( v ), double( A.size() * B.size() ) * sq( M_PI / 2 ) }; };
  std::vector<std::vector<double>> K; double scale; Weight W{ C, p }; Gauss G{ sigma };
  gram( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::linearKernel( D, E, W, G ); }, linear, "linear", rel, K, scale ); metric( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::pseudoMetric( D, E, W, G ); }, K, scale, rel, "linear-metric" );
  auto outer = [&]( const Pts& A, const Pts& B ) { double d2 = std::max( 0.0, linear( A, A ).value + linear( B, B ).value - 2 * linear( A, B ).value ); return Both{ std::exp( -d2 / ( 2 * tau * tau ) ), 1.0 }; };
  double rel2 = std::max( rel, rel * 16 * scale / ( tau * tau ) ); std::vector<std::vector<double>> K2; double scale2;
  if( rel2 < 0.05 ) { gram( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::gaussianKernel( D, E, W, G, tau ); }, outer, "gaussian", rel2, K2, scale2 ); gram( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::gaussianKernel( D, E, sigma, C, p, tau ); }, outer, "gaussian-default", rel2, K2, scale2 ); }
  // A kernel that is not bounded
  auto product = [&]( const Pts& A, const Pts& B ) { long double v = 0, m = 0; for( auto& a : A ) for( auto& b : B ) { double t = w( a ) * w( b ) * ( a.first * b.first + a.second * b.second + 1 ); v += t; m += w( a ) * w( b ) * ( std::fabs( a.first * b.first ) + std::fabs( a.second * b.second ) + 1 ); } return Both{ double( v ), double( m ) }; };
  gram( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::linearKernel( D, E, W, Product() ); }, product, "product", rel, K, scale ); metric( c, f, [&]( const PD<T>& D, const PD<T>& E ) { return aleph::pseudoMetric( D, E, W, Product() ); }, K, scale, rel, "product-metric" );
}

} // namespace

SECTION( multiscale, 3000, 60000 ) { switch( c.k % 3 ) { case 0: multi<double>( c ); break; case 1: multi<float>( c ); break; default: multi<int>( c ); } }
SECTION( weighted, 3000, 60000 ) { switch( c.k % 2 ) { case 0: weighted<double>( c ); break; default: weighted<float>( c ); } }
