#include "bridge.hh"

#include <aleph/geometry/DowkerComplex.hh>

using namespace vp;

namespace
{

using M = std::vector<std::vector<double>>;

M shortest( const M& W )
{
  std::size_t n = W.size(); M D( n, std::vector<double>( n, INF ) ); for( std::size_t i = 0; i < n; i++ ) { for( std::size_t j = 0; j < n; j++ ) if( W[i][j] > 0 ) D[i][j] = W[i][j]; D[i][i] = 0; }
  for( std::size_t k = 0; k < n; k++ ) for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) D[i][j] = std::min( D[i][j], D[i][k] + D[k][j] );
  return D;
}

void complex( Ctx& c, const std::map<VSet,double>& A, std::size_t size, const M& D, double R, unsigned dim, bool source, const std::string& what )
{
  std::size_t n = D.size(), expected = 0; c.eq( size, A.size(), what + "-duplicates" );
  for( unsigned mask = 1; mask < ( 1u << n ); mask++ )
  {
    VSet s; for( unsigned i = 0; i < n; i++ ) if( mask >> i & 1 ) s.push_back( i ); double w = INF;
    for( std::size_t p = 0; p < n; p++ ) { double x = 0; for( auto v : s ) x = std::max( x, source ? D[p][v] : D[v][p] ); w = std::min( w, x ); }
    bool in = w <= R && ( dim == 0 || s.size() <= dim + 1 ); expected += in; auto it = A.find( s );
    c.expect( ( it != A.end() ) == in, what + ( in ? "-missing" : "-extra" ), str( s ) ); if( in && it != A.end() ) c.near( it->second, w, 1e-9, what + "-weight", str( s ) );
  }
  c.eq( A.size(), expected, what + "-size" );
}

template <class V> void dowker( Ctx& c )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, 8 ) ); double p = c.rng.pick( std::vector<double> { 0.1, 0.3, 0.6, 1.0 } ); M W( n, std::vector<double>( n, 0.0 ) ); bool ints = c.rng.chance( 0.5 ), symmetric = c.rng.chance( 0.2 );
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) { if( c.rng.chance( p ) && ( i != j || c.rng.chance( 0.2 ) ) ) W[i][j] = ints ? c.rng.range( 1, 9 ) : c.rng.real( 0.1, 9 ); if( symmetric && j < i ) W[i][j] = W[j][i]; }
  auto D = shortest( W ); double R = ints ? c.rng.range( 0, 20 ) + 0.5 : c.rng.real( 0, 20 ); for( auto& r : D ) for( auto x : r ) if( std::fabs( x - R ) < 1e-6 ) throw Skip();
  unsigned dim = static_cast<unsigned>( c.rng.range( 0, 4 ) ); c.desc << "R " << R << " dim " << dim << " W " << str( W );
  auto pairs = aleph::geometry::admissiblePairs( W, R ); std::map<std::pair<std::size_t,std::size_t>,double> have; for( auto& q : pairs ) have[ { q.p, q.q } ] = q.w;
  c.eq( pairs.size(), have.size(), "pairs-duplicates" ); std::size_t edges = 0;
  for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) { bool in = D[i][j] <= R; edges += in && i != j; auto it = have.find( { i, j } ); c.expect( ( it != have.end() ) == in, in ? "pairs-missing" : "pairs-extra", std::to_string( i ) + "," + std::to_string( j ) ); if( in && it != have.end() ) c.near( it->second, D[i][j], 1e-9, "pairs-weight" ); }
  if( edges ) c.nontrivial( combine( dig( W ), combine( dim, hashDouble( R ) ) ) );
  auto K = aleph::geometry::buildDowkerSinkSourceComplexes<V,double>( pairs, dim ); complex( c, weightsOf( K.first ), K.first.size(), D, R, dim, true, "source" ); complex( c, weightsOf( K.second ), K.second.size(), D, R, dim, false, "sink" ); expectFiltration( c, K.first, "source" ); expectFiltration( c, K.second, "sink" );
  auto S = aleph::geometry::buildDowkerSourceCompplex<M,V,double>( W, R, dim ); complex( c, weightsOf( S ), S.size(), D, R, dim, true, "source-direct" ); expectFiltration( c, S, "source-direct" );
}

} // namespace

SECTION( dowker_unsigned, 2000, 25000 ) { dowker<unsigned>( c ); }
SECTION( dowker_short, 500, 8000 ) { dowker<unsigned short>( c ); }
