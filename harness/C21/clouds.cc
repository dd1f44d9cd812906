// Point clouds: storage histories against a plain model, and parsing.
#include "bridge.hh"
#include "points.hh"

#include <aleph/containers/PointCloud.hh>

using namespace vp;

namespace
{

template <class T> struct Model
{
  std::size_t n = 0, d = 0; std::vector<std::vector<T>> p;
};

template <class T> void compare( Ctx& c, const aleph::containers::PointCloud<T>& C, const Model<T>& M, const std::string& what )
{
  c.eq( C.size(), M.n, "size", what ); c.eq( C.dimension(), M.d, "dimension", what ); c.eq( C.empty(), M.n == 0, "empty", what );
  for( std::size_t i = 0; i < M.n && i < C.size(); i++ )
  {
    c.expectf( C[i] == M.p[i], "point", [&]( std::ostream& o ){ o << what << " point " << i << " is " << str( C[i] ) << " expected " << str( M.p[i] ); } );
    std::vector<T> g; C.get( i, std::back_inserter( g ) ); c.expect( g == M.p[i], "get", what );
    c.expect( std::equal( M.p[i].begin(), M.p[i].end(), C.data() + i * M.d ), "data", what );
  }
}

template <class T> void history( Ctx& c )
{
  using PC = aleph::containers::PointCloud<T>;
  std::vector<PC> cloud; std::vector<Model<T>> model; std::uint64_t h = 0; std::string log;
  auto value = [&]{ switch( c.rng.range( 0, 3 ) ) { case 0: return T( c.rng.range( -9, 9 ) ); case 1: return T( c.rng.real( -1e6, 1e6 ) ); case 2: return T( c.rng.real( -1, 1 ) * 1e-3 ); default: return T( c.rng.normal() ); } };
  auto fresh = [&]( std::size_t n, std::size_t d )
  {
    cloud.emplace_back( n, d ); Model<T> m; m.n = n; m.d = d; m.p.assign( n, std::vector<T>( d ) ); model.push_back( m );
  };
  fresh( std::size_t( c.rng.range( 0, 6 ) ), std::size_t( c.rng.range( 1, 5 ) ) );
  int steps = c.rng.range( 3, c.thorough ? 60 : 25 );
  for( int s = 0; s < steps; s++ )
  {
    std::size_t a = c.rng.below( cloud.size() ), b = c.rng.below( cloud.size() ); auto& C = cloud[a]; auto& M = model[a]; int op = c.rng.range( 0, 12 ); log += " " + std::to_string( op ) + ":" + std::to_string( a ) + "," + std::to_string( b );
    h = combine( h, std::uint64_t( op ) * 131 + a * 17 + b );
    switch( op )
    {
    case 0: case 1: case 2: case 3:
      if( M.n )
      {
        std::size_t i = c.rng.below( M.n ); std::vector<T> v( M.d ); for( auto& x : v ) { x = value(); h = combine( h, hashDouble( double( x ) ) ); }
        if( M.d == 2 && c.rng.chance( 0.5 ) ) C.set( i, { v[0], v[1] } ); else if( c.rng.chance( 0.3 ) ) { std::vector<double> w( v.begin(), v.end() ); C.set( i, w.begin(), w.end() ); } else C.set( i, v.begin(), v.end() );
        M.p[i] = v;
      }
      break;
    case 4:
    {
      std::vector<T> v( M.d + ( c.rng.chance( 0.5 ) ? 1 : std::size_t( -1 ) ), T( 7 ) );
      if( M.n ) c.throws( [&]{ C.set( c.rng.below( M.n ), v.begin(), v.end() ); }, "wrong-dimension-accepted", log );
      std::vector<T> w( M.d, T( 3 ) ); c.throws( [&]{ C.set( M.n + c.rng.below( 3 ), w.begin(), w.end() ); }, "index-accepted", log );
      c.throws( [&]{ auto p = C[ M.n + c.rng.below( 3 ) ]; }, "access-accepted", log ); c.throws( [&]{ std::vector<T> o; C.get( M.n, std::back_inserter( o ) ); }, "get-accepted", log );
      c.throws( [&]{ auto p = C[ std::size_t( -1 ) ]; }, "access-accepted", log );
      break;
    }
    case 5: if( cloud.size() < 6 ) fresh( std::size_t( c.rng.range( 0, 6 ) ), c.rng.chance( 0.6 ) ? M.d : std::size_t( c.rng.range( 1, 5 ) ) ); break;
    case 6: { PC k( cloud[b] ); auto m = model[b]; cloud[a] = k; model[a] = m; compare( c, k, m, log ); break; }
    case 7: { auto m = model[b]; PC k( std::move( cloud[b] ) ); compare( c, k, m, log + " moved" ); cloud[b] = PC( m.n, m.d ); cloud[b] = std::move( k ); break; }
    case 8: { auto& same = cloud[b]; cloud[b] = same; break; }
    case 9: { swap( cloud[a], cloud[b] ); std::swap( model[a], model[b] ); break; }
    case 10:
      if( model[a].d != model[b].d ) c.throws( [&]{ auto r = cloud[a] + cloud[b]; }, "mixed-dimensions-accepted", log );
      else if( model[a].n + model[b].n < 60 )
      {
        auto r = cloud[a] + cloud[b]; Model<T> m = model[a]; m.n += model[b].n; m.p.insert( m.p.end(), model[b].p.begin(), model[b].p.end() ); compare( c, r, m, log + " sum" );
        if( c.rng.chance( 0.5 ) ) { cloud[a] = r; model[a] = m; }
      }
      break;
    case 11:
      c.eq( cloud[a] == cloud[b], model[a].n == model[b].n && model[a].d == model[b].d && model[a].p == model[b].p, "equality", log );
      if( M.n && M.d ) { PC k( C ); auto v = M.p[ M.n - 1 ]; v[ M.d - 1 ] += T( 1000000 ); k.set( M.n - 1, v.begin(), v.end() ); c.expect( !( k == C ), "differing-equal", log ); compare( c, C, M, log + " after changing a copy" ); }
      break;
    default:
    {
      std::ostringstream o; o.precision( 17 ); o << C; std::istringstream in( o.str() ); auto r = aleph::containers::load<T>( in );
      if( M.n ) compare( c, r, M, log + " written and read" ); else c.eq( r.size(), std::size_t( 0 ), "written-empty", log );
    }
    }
    compare( c, cloud[a], model[a], log ); compare( c, cloud[b], model[b], log );
  }
  for( std::size_t i = 0; i < cloud.size(); i++ ) compare( c, cloud[i], model[i], log + " end" );
  PC e; c.eq( e.size(), std::size_t( 0 ), "default-size" ); PC e2( e ), e3; e3 = e; c.expect( e == e2 && e3 == e, "default-equal" ); c.throws( [&]{ auto p = e[0]; }, "default-access" );
  c.desc << "steps" << log; c.nontrivial( h );
}

template <class T> void parse( Ctx& c )
{
  std::size_t n = std::size_t( c.rng.range( 1, 12 ) ), d = std::size_t( c.rng.range( 1, 7 ) ); Model<T> m; m.n = n; m.d = d; std::string text; std::uint64_t h = 0;
  int sep = c.rng.range( 0, 7 ); bool crlf = c.rng.chance( 0.2 );
  auto noise = [&]{ while( c.rng.chance( 0.25 ) ) { text += c.rng.pick( std::vector<std::string>{ "", "# comment 1 2 3", "   ", "  # indented", "\t", "#" } ); text += crlf ? "\r\n" : "\n"; } };
  noise();
  for( std::size_t i = 0; i < n; i++ )
  {
    std::vector<T> p; std::string line = c.rng.chance( 0.2 ) ? "  " : "";
    for( std::size_t j = 0; j < d; j++ )
    {
      T v = T( c.rng.chance( 0.4 ) ? c.rng.range( -20, 20 ) : c.rng.chance( 0.5 ) ? c.rng.real( -1e3, 1e3 ) : c.rng.normal() * std::pow( 10.0, c.rng.range( -20, 20 ) ) );
      char buffer[64]; std::snprintf( buffer, sizeof buffer, c.rng.chance( 0.3 ) ? "%.17e" : "%.17g", double( v ) );
      if( j ) line += sep < 7 ? std::vector<std::string>{ " ", "\t", ",", ";", ", ", ":", " ; " }[ std::size_t( sep ) ] : c.rng.pick( std::vector<std::string>{ " ", "  ", "\t", ",", ", ", ";", " :" } );
      line += buffer; p.push_back( v ); h = combine( h, hashDouble( double( v ) ) );
    }
    if( c.rng.chance( 0.2 ) ) line += c.rng.pick( std::vector<std::string>{ " ", "\t", "  " } );
    m.p.push_back( p ); text += line; if( i + 1 < n || c.rng.chance( 0.8 ) ) { text += crlf ? "\r\n" : "\n"; noise(); }
  }
  c.desc << n << "x" << d << " separator " << sep << ( crlf ? " crlf" : "" ); c.nontrivial( combine( h, hashString( text ) ) );
  std::istringstream in( text ); compare( c, aleph::containers::load<T>( in ), m, "stream " + text );
  if( c.k % 4 == 0 ) { auto f = c.scratch + "/cloud.txt"; writeFile( f, text ); compare( c, aleph::containers::load<T>( f ), m, "file " + text ); c.eq( aleph::containers::load<T>( c.scratch + "/missing" ).size(), std::size_t( 0 ), "missing-file" ); }
  if( n > 1 )
  {
    std::string bad; for( std::size_t i = 0; i < n; i++ ) { for( std::size_t j = 0; j < d + ( i + 1 == n ? 1 : 0 ); j++ ) bad += ( j ? " " : "" ) + std::to_string( j ); bad += "\n"; }
    c.throws( [&]{ std::istringstream s( bad ); aleph::containers::load<T>( s ); }, "ragged-accepted", bad );
  }
  std::istringstream none( "# only\n\n  \n" ); c.eq( aleph::containers::load<T>( none ).size(), std::size_t( 0 ), "only-comments" );
}

SECTION( history, 6000, 24000 ) { if( c.k % 3 == 2 ) history<float>( c ); else history<double>( c ); }
SECTION( parse, 4000, 16000 ) { if( c.k % 3 == 2 ) parse<float>( c ); else parse<double>( c ); }

} // namespace
