// Constructions on complexes and their homology.
#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Spine.hh>
#include <aleph/topology/filtrations/Data.hh>

using namespace vp;
using namespace aleph::topology;

namespace
{

std::set<VSet> sets( const Cx& A ) { return { A.s.begin(), A.s.end() }; }

std::vector<long> trimmed( std::vector<long> b ) { while( !b.empty() && b.back() == 0 ) b.pop_back(); return b; }

Dgms offDiagonal( const Cx& A )
{
  auto D = diagrams( A, true ); Dgms R;
  for( auto& kv : D ) { Dgm d; for( auto& p : kv.second ) if( p.first != p.second ) d.push_back( p ); std::sort( d.begin(), d.end() ); if( !d.empty() ) R[ kv.first ] = d; }
  return R;
}

std::string text( const Dgms& D ) { std::ostringstream o; for( auto& kv : D ) o << kv.first << ":" << str( kv.second ) << " "; return o.str(); }

// Known surfaces and spheres next to random complexes
Cx makeComplex( Ctx& c, unsigned maxVertices, unsigned maxDim, unsigned maxId )
{
  CxOptions o; o.maxVertices = maxVertices; o.maxDim = maxDim; o.maxGenerators = 12; o.maxId = maxId;
  if( c.rng.chance( 0.8 ) ) return randomComplex( c.rng, o );
  std::set<VSet> S;
  switch( c.rng.below( 4 ) )
  {
    case 0: S = torusGrid( 3, 3 ); break;
    case 1: { std::vector<VSet> g; VSet all; for( unsigned i = 0; i <= maxDim + 1; i++ ) all.push_back( i ); for( auto& f : facesOf( all ) ) g.push_back( f ); S = closure( g ); break; } // sphere
    case 2: // real projective plane
      S = closure( { {0,1,4}, {0,1,5}, {0,2,3}, {0,2,5}, {0,3,4}, {1,2,3}, {1,2,4}, {1,3,5}, {2,4,5}, {3,4,5} } ); break;
    default: // dunce hat
      S = closure( { {0,1,3}, {0,1,5}, {0,1,6}, {0,2,3}, {0,2,4}, {0,2,6}, {0,3,4}, {0,5,7}, {0,6,7}, {1,2,4}, {1,2,5}, {1,2,7}, {1,3,7}, {1,4,6}, {2,3,5}, {2,6,7}, {3,4,5}, {3,5,7}, {4,5,6} } );
  }
  if( maxDim < 2 ) { for( auto it = S.begin(); it != S.end(); ) it = it->size() > 2 ? S.erase( it ) : std::next( it ); }
  return orderComplex( c.rng, randomWeights( c.rng, S, static_cast<int>( c.rng.below( 3 ) ) ), true );
}

template <class T> void cast( Cx& A ) { for( auto& w : A.w ) w = static_cast<double>( static_cast<T>( w ) ); }

template <class S> void subdivision( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType; using K = SimplicialComplex<S>;
  auto A = makeComplex( c, 7, 3, maxId ); cast<T>( A ); auto k = toComplex<S>( A );
  BarycentricSubdivision Sd; auto l = Sd( k );
  c.desc << A.text( 12 ); if( A.dimension() > 0 ) c.nontrivial( A.digest() );
  expectClosed( c, l, "sd-closed" );

  // Number of simplices: chains of simplices; every chain carries the weight of its largest element
  auto S_ = sets( A ); auto idx = A.index(); std::map<int, std::map<double,long>> expected, have;
  {
    std::vector<VSet> order( S_.begin(), S_.end() ); std::sort( order.begin(), order.end(), []( const VSet& a, const VSet& b ) { return a.size() < b.size(); } );
    std::map<VSet, std::vector<long>> chains;
    for( auto& s : order ) { auto& n = chains[s]; n.assign( s.size(), 0 ); n[0] = 1; for( auto& t : subsetsOf( s ) ) if( t.size() < s.size() ) { auto& m = chains[t]; for( std::size_t i = 0; i < m.size(); i++ ) n[ i + 1 ] += m[i]; } for( std::size_t i = 0; i < n.size(); i++ ) if( n[i] ) expected[ int( i ) ][ A.w[ idx[s] ] ] += n[i]; }
  }
  for( auto&& s : l ) have[ int( s.dimension() ) ][ double( s.data() ) ] += 1;
  c.expect( have == expected, "sd-weights", std::to_string( l.size() ) + " simplices" );

  // The vertices of the complex remain
  auto W = weightsOf( l ); for( std::size_t i = 0; i < A.size(); i++ ) if( A.s[i].size() == 1 ) c.expect( W.count( A.s[i] ) && W[ A.s[i] ] == A.w[i], "sd-vertices" );

  l.sort( filtrations::Data<S>() ); expectFiltration( c, l, "sd-filtration" );
  auto D = offDiagonal( fromComplex( l ) ), E = offDiagonal( A );
  c.expect( D == E, "sd-diagrams", text( D ) + " expected " + text( E ) );

  if( A.size() < 20 ) { auto m = Sd( Sd( k ) ); expectClosed( c, m, "sd2-closed" ); c.expect( trimmed( bettiNumbers( sets( fromComplex( m ) ) ) ) == trimmed( bettiNumbers( S_ ) ), "sd2-betti" ); }

  // Factors depend on the dimension
  {
    std::vector<double> f; for( int i = 0; i < 6; i++ ) f.push_back( c.rng.pick( std::vector<double>{ 0, 0.5, 1, 2, 0.25, 4 } ) );
    auto m = Sd( k, [&]( std::size_t d ) { return f.at( d ); } );
    std::map<int, std::map<double,long>> e, h;
    for( auto& kv : expected ) for( auto& x : kv.second ) e[ kv.first ][ double( T( x.first ) * T( f[ kv.first ] ) ) ] += x.second;
    for( std::size_t i = 0; i < A.size(); i++ ) if( A.s[i].size() == 1 ) { auto& n = e[0][ double( T( A.w[i] ) * T( f[0] ) ) ]; if( --n == 0 ) e[0].erase( double( T( A.w[i] ) * T( f[0] ) ) ); e[0][ A.w[i] ] += 1; }
    for( auto&& s : m ) h[ int( s.dimension() ) ][ double( s.data() ) ] += 1;
    c.expect( h == e, "sd-factors" );
  }
  K empty; c.expect( Sd( empty ).empty(), "sd-empty" );
}

template <class S> void quotients( Ctx& c, unsigned maxId )
{
  using T = typename S::DataType; using K = SimplicialComplex<S>;
  auto A = makeComplex( c, 9, 3, maxId ); cast<T>( A ); auto k = toComplex<S>( A ); auto S_ = sets( A ); auto W = weightsOf( k );
  c.desc << A.text( 12 ); c.nontrivial( A.digest() );
  auto b = bettiNumbers( S_ );

  // without and with weights
  auto check = [&]( const K& l, std::size_t apices, const std::string& key, const std::function<double( const VSet& )>& f )
  {
    expectClosed( c, l, key + "-closed" );
    auto L = weightsOf( l ); c.eq( L.size(), l.size(), key + "-unique" );
    std::set<VSet> have; for( auto& kv : L ) have.insert( kv.first );
    c.eq( l.size(), ( apices + 1 ) * A.size() + apices, key + "-size" );
    std::vector<unsigned> tops; for( auto& kv : L ) if( kv.first.size() == 1 && !S_.count( kv.first ) ) tops.push_back( kv.first[0] );
    c.eq( tops.size(), apices, key + "-apices" );
    bool ok = true;
    for( auto& s : S_ ) { ok = ok && L.count( s ) && L[s] == W[s]; for( auto t : tops ) { auto u = s; u.push_back( t ); std::sort( u.begin(), u.end() ); ok = ok && L.count( u ) && L[u] == double( T( f( s ) ) ); } }
    for( auto t : tops ) ok = ok && L[ VSet{ t } ] == double( T( f( VSet() ) ) );
    c.expect( ok, key + "-simplices", vp::text( L ) );
    auto h = trimmed( bettiNumbers( have ) ), e = std::vector<long>{ 1 };
    if( apices == 2 ) { e.assign( b.size() + 1, 0 ); for( std::size_t i = 0; i < b.size(); i++ ) e[ i + 1 ] = b[i] - ( i == 0 ); e[0] = 1; e = trimmed( e ); }
    c.expect( h == e, key + "-homology", str( h ) + " expected " + str( e ) );
  };
  auto zero = []( const VSet& ) { return 0.0; };
  check( cone( k ), 1, "cone", zero ); check( suspension( k ), 2, "suspension", zero );
  double top = 0; for( auto w : A.w ) top = std::max( top, w ); double shift = c.rng.range( 1, 5 );
  auto f = [&]( const VSet& s ) { return s.empty() ? top : double( T( W.at( s ) + shift ) ); };
  auto g = [&]( const S& s ) { return T( f( vset( s ) ) ); };
  check( cone( k, g ), 1, "weighted-cone", f ); check( suspension( k, g ), 2, "weighted-suspension", f );

  // Coning off at the end kills every class; suspending at the end leaves the diagrams and shifts the essential classes
  {
    double end = double( T( top + 1 ) ); auto h = [&]( const S& ) { return T( end ); };
    auto l = cone( k, h ); l.sort( filtrations::Data<S>() ); auto m = suspension( k, h ); m.sort( filtrations::Data<S>() );
    auto D = offDiagonal( fromComplex( l ) ), E = offDiagonal( A );
    // the class of the oldest component survives
    double birth = INF; for( std::size_t i = 0; i < A.size(); i++ ) if( A.s[i].size() == 1 ) birth = std::min( birth, A.w[i] );
    Dgms X; bool first = true; for( auto& kv : E ) for( auto p : kv.second ) { if( std::isinf( p.second ) ) { if( kv.first == 0 && p.first == birth && first ) first = false; else p.second = end; } if( p.first != p.second ) X[ kv.first ].push_back( p ); }
    for( auto& kv : X ) std::sort( kv.second.begin(), kv.second.end() );
    c.expect( D == X, "cone-persistence", text( D ) + " expected " + text( X ) );
    auto Y = X; for( std::size_t i = 0; i < b.size(); i++ ) for( long j = 0; j < b[i] - ( i == 0 ); j++ ) Y[ int( i ) + 1 ].push_back( { end, INF } );
    for( auto& kv : Y ) std::sort( kv.second.begin(), kv.second.end() );
    auto F = offDiagonal( fromComplex( m ) );
    c.expect( F == Y, "suspension-persistence", text( F ) + " expected " + text( Y ) );
  }
  K empty; c.expect( cone( empty ).empty() && suspension( empty ).empty(), "empty" ); c.eq( aleph::eulerCharacteristic( empty ), 0L, "euler-empty" );
  std::vector<aleph::PersistenceDiagram<typename S::DataType>> no; c.eq( aleph::eulerCharacteristic( no.begin(), no.end() ), 0L, "euler-no-diagrams" ); c.expect( aleph::persistentEulerCharacteristic( no.begin(), no.end() ) == 0, "persistent-euler-no-diagrams" );
}

template <class S> void subsets( Ctx& c, unsigned maxId )
{
  using K = SimplicialComplex<S>;
  auto A = makeComplex( c, 10, 4, maxId ); cast<typename S::DataType>( A );
  // any order of simplices is kept
  if( c.rng.chance( 0.3 ) ) { std::vector<std::size_t> p( A.size() ); for( std::size_t i = 0; i < p.size(); i++ ) p[i] = i; c.rng.shuffle( p ); Cx B; for( auto i : p ) { B.s.push_back( A.s[i] ); B.w.push_back( A.w[i] ); } A = B; }
  auto k = toComplex<S>( A ); c.desc << A.text( 12 ); c.nontrivial( A.digest() );
  auto same = [&]( const K& l, const std::function<bool( std::size_t )>& f, const std::string& key )
  {
    Cx E; for( std::size_t i = 0; i < A.size(); i++ ) if( f( i ) ) { E.s.push_back( A.s[i] ); E.w.push_back( A.w[i] ); }
    auto L = fromComplex( l ); c.expect( L.s == E.s && L.w == E.w, key, L.text() + " expected " + E.text() );
  };
  for( std::size_t d = 0; d <= 6; d++ ) same( Skeleton()( d, k ), [&]( std::size_t i ) { return A.s[i].size() <= d + 1; }, "skeleton" );
  double t = A.w.empty() ? 0 : c.rng.pick( A.w );
  same( Filter()( k, [&]( const S& s ) { return double( s.data() ) <= t; } ), [&]( std::size_t i ) { return A.w[i] <= t; }, "filter-weight" );
  std::size_t n = std::size_t( c.rng.range( 0, 4 ) );
  same( Filter()( k, [&]( const S& s ) { return s.dimension() == n; } ), [&]( std::size_t i ) { return A.s[i].size() == n + 1; }, "filter-dimension" );
  same( Filter()( k, []( const S& ) { return false; } ), []( std::size_t ) { return false; }, "filter-none" );
  same( Filter()( k, []( const S& ) { return true; } ), []( std::size_t ) { return true; }, "filter-all" );
  auto after = fromComplex( k ); c.expect( after.s == A.s && after.w == A.w, "unchanged" );

  // Euler characteristics
  long chi = 0; for( auto& s : A.s ) chi += s.size() % 2 ? 1 : -1;
  auto b = bettiNumbers( sets( A ) ); long chiB = 0; for( std::size_t i = 0; i < b.size(); i++ ) chiB += i % 2 ? -b[i] : b[i];
  if( chi != chiB ) throw std::logic_error( "reference models disagree" );
  c.eq( aleph::eulerCharacteristic( k ), chi, "euler-simplices" );
  auto o = orderComplex( c.rng, weightsOf( k ), false ); auto ordered = toComplex<S>( o );
  auto D = aleph::calculatePersistenceDiagrams( ordered, c.rng.chance( 0.5 ), true );
  c.rng.shuffle( D );
  c.eq( aleph::eulerCharacteristic( D.begin(), D.end() ), chi, "euler-homology" );
  // the alternating sum of all finite persistence values
  for( auto& d : D ) d.removeUnpaired();
  double p = 0; for( auto& d : D ) for( auto&& x : d ) p += ( d.dimension() % 2 ? -1 : 1 ) * double( x.persistence() );
  c.expect( std::fabs( double( aleph::persistentEulerCharacteristic( D.begin(), D.end() ) ) - p ) <= 1e-3 * ( 1 + std::fabs( p ) ), "euler-persistent" );
}

template <class S> void collapse( Ctx& c, unsigned maxId )
{
  using K = SimplicialComplex<S>;
  auto A = makeComplex( c, c.k % 4 == 0 ? 7 : 9, c.k % 3 == 0 ? 1 : 3, maxId ); cast<typename S::DataType>( A );
  if( c.rng.chance( 0.1 ) ) { // a collapsible complex: a cone
    unsigned v = 0; for( auto& s : A.s ) for( auto x : s ) v = std::max( v, x + 1 ); if( v > maxId ) throw Skip();
    std::map<VSet,double> W; for( std::size_t i = 0; i < A.size(); i++ ) { W[ A.s[i] ] = A.w[i]; auto t = A.s[i]; t.push_back( v ); W[t] = A.w[i] + 1; } W[ VSet{ v } ] = 0;
    A = orderComplex( c.rng, W, true );
  }
  auto k = toComplex<S>( A ); c.desc << A.text( 12 );
  auto S_ = sets( A ); auto W = weightsOf( k ); auto b = trimmed( bettiNumbers( S_ ) );
  auto check = [&]( const K& l, const std::string& key )
  {
    expectClosed( c, l, key + "-closed" );
    auto L = fromComplex( l ); auto T_ = sets( L ); c.eq( T_.size(), L.size(), key + "-unique" );
    bool sub = true; for( std::size_t i = 0; i < L.size(); i++ ) sub = sub && S_.count( L.s[i] ) && W[ L.s[i] ] == L.w[i];
    c.expect( sub, key + "-subcomplex", L.text() );
    c.expect( trimmed( bettiNumbers( T_ ) ) == b, key + "-homology", L.text() + " of " + A.text() );
    // no simplex has a face that belongs to no other simplex
    std::map<VSet,int> cofaces; for( auto& s : T_ ) for( auto& t : subsetsOf( s ) ) if( t.size() < s.size() ) ++cofaces[t];
    bool free = false; for( auto& kv : cofaces ) free = free || kv.second == 1;
    c.expect( !free, key + "-free-face", L.text() + " of " + A.text() );
    if( b == std::vector<long>{ 1 } && A.dimension() == 1 ) c.eq( L.size(), std::size_t( 1 ), key + "-tree" );
    return L.size();
  };
  auto n = check( spine( k ), "spine" ), m = A.size() <= 60 ? check( dumb::spine( k ), "dumb-spine" ) : 0; (void) m;
  if( n < A.size() ) c.nontrivial( A.digest() );
}

} // namespace

#define TYPES( f ) switch( c.k % 5 ) { case 0: f<Simplex<double,unsigned>>( c, 4000000 ); break; case 1: f<Simplex<double,unsigned short>>( c, 60000 ); break; case 2: f<Simplex<float,unsigned>>( c, 1000 ); break; case 3: f<Simplex<float,short>>( c, 30000 ); break; default: f<Simplex<double,unsigned>>( c, 30 ); }

SECTION( subdivision, 2800, 30000 ) { TYPES( subdivision ) }
SECTION( quotients, 5000, 60000 ) { TYPES( quotients ) }
SECTION( subsets, 6000, 80000 )   { TYPES( subsets ) }
SECTION( collapse, 4000, 50000 )  { TYPES( collapse ) }
