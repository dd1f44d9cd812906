// Text, paths and number formatting against character-level reference functions.
#include "bridge.hh"

#include <aleph/utilities/Filesystem.hh>
#include <aleph/utilities/Format.hh>
#include <aleph/utilities/String.hh>
#include <aleph/utilities/Timer.hh>

#include <cstdio>
#include <cstring>

#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

using namespace vp;
namespace U = aleph::utilities;

namespace
{

bool blank( char x ) { return x == ' ' || x == '\t' || x == '\n' || x == '\v' || x == '\f' || x == '\r'; }

std::string visible( const std::string& s ) { std::string r = "'"; char b[8]; for( unsigned char x : s ) if( x < 32 ) { std::snprintf( b, sizeof b, "\\x%02x", x ); r += b; } else r += char( x ); return r + "'"; }

std::string text( Ctx& c, const std::string& alphabet, int max ) { std::string s; int n = c.rng.range( 0, max ); for( int i = 0; i < n; i++ ) s += alphabet[ c.rng.below( alphabet.size() ) ]; return s; }

std::vector<std::string> words( const std::string& s ) { std::vector<std::string> r; std::string w; for( char x : s ) if( blank( x ) ) { if( !w.empty() ) r.push_back( w ); w.clear(); } else w += x; if( !w.empty() ) r.push_back( w ); return r; }

}

SECTION( trimming, 20000, 300000 )
{
  static const std::vector<std::string> A = { " \t\n\v\f\rab", "  a,;.-#0", " \t", "abc XYZ 123", "\"'<>[](){} =" };
  std::string s = text( c, c.rng.pick( A ), c.k % 50 == 0 ? 400 : 14 ), w = visible( s ); c.desc << w; if( !s.empty() ) c.nontrivial( hashString( s ) );
  std::size_t b = 0, e = s.size(); while( b < s.size() && blank( s[b] ) ) b++; while( e > 0 && blank( s[e-1] ) ) e--;
  std::string left = s.substr( b ), right = s.substr( 0, e ), both = b < e ? s.substr( b, e - b ) : std::string(), copy = s;
  c.expectf( U::ltrim( s ) == left, "left", [&]( std::ostream& o ){ o << w << " gives " << visible( U::ltrim( s ) ); } );
  c.expectf( U::rtrim( s ) == right, "right", [&]( std::ostream& o ){ o << w << " gives " << visible( U::rtrim( s ) ); } );
  c.expectf( U::trim( s ) == both, "both", [&]( std::ostream& o ){ o << w << " gives " << visible( U::trim( s ) ); } );
  c.expect( s == copy, "argument-changed", w );
  auto W = words( s ); auto t = U::splitByWhitespace( s ); c.expectf( t == W, "tokens", [&]( std::ostream& o ){ o << w << " gives " << str( t ); } ); c.eq( U::countTokens( s ), W.size(), "token-count", w );
}

// Fields between separators; a separator at the front yields an empty field, one at the end does not.
SECTION( splitting, 4000, 60000 )
{
  struct Kind { std::string regex, separators; bool run; };
  static const std::vector<Kind> kinds = { { "[[:space:]]+", " \t\n\v\f\r", true }, { ",", ",", false }, { "[,;]", ",;", false }, { "[:,;[:space:]]+", ":,; \t", true }, { ";+", ";", true } };
  const Kind& k = kinds[ c.rng.below( kinds.size() ) ]; std::string s = text( c, "ab1.-" + k.separators + k.separators, 20 ) + "x" + text( c, k.separators + "y", 4 ), w = k.regex + " on " + visible( s ); c.desc << w; c.nontrivial( hashString( w ) );
  std::vector<std::string> e; std::string f; for( std::size_t i = 0; i < s.size(); i++ ) { if( k.separators.find( s[i] ) != std::string::npos ) { if( !( k.run && i > 0 && k.separators.find( s[i-1] ) != std::string::npos ) ) { e.push_back( f ); f.clear(); } } else f += s[i]; } if( !f.empty() ) e.push_back( f );
  auto a = U::split( s, k.regex ); c.expectf( a == e, "fields", [&]( std::ostream& o ){ o << w << " gives " << str( a ) << " expected " << str( e ); } );
  if( k.regex == "[[:space:]]+" ) { a = U::split( s ); c.expect( a == e, "fields-default", w ); }
}

namespace
{

template <class T> void number( Ctx& c )
{
  T x; switch( c.rng.range( 0, 4 ) ) { case 0: x = T( c.rng.range( -9, 9 ) ); break; case 1: x = T( c.rng.real( -30000, 30000 ) ); break; case 2: x = T( 0 ); break; case 3: x = std::numeric_limits<T>::max(); break; default: x = T( c.rng.normal() ); }
  if( std::is_unsigned<T>::value && c.rng.chance( 0.7 ) ) x = T( c.rng() );
  std::ostringstream o; o.precision( std::numeric_limits<T>::max_digits10 ); if( c.rng.chance( 0.2 ) && x > 0 ) o << "+"; if( c.rng.chance( 0.2 ) ) o << std::scientific; o << x; std::string pre( std::size_t( c.rng.range( 0, 2 ) ), ' ' ), post( std::size_t( c.rng.range( 0, 1 ) ), '\t' ), s = pre + o.str() + post; c.desc << visible( s ); c.nontrivial( hashString( s ) + sizeof( T ) );
  bool ok = false; T y = U::convert<T>( s, ok ); c.expect( ok, "conversion-flag", visible( s ) ); c.eq( y, x, "conversion", visible( s ) ); c.eq( U::convert<T>( s ), x, "conversion-short", visible( s ) );
  static const std::vector<std::string> bad = { "", " ", "abc", "x1", "--1", "#", "e5", "in", "information", "none", "+", "-" }; std::string b = c.rng.pick( bad ); ok = true; y = U::convert<T>( b, ok ); c.expect( !ok, "garbage-flag", visible( b ) ); c.eq( y, T(), "garbage", visible( b ) );
}

template <class T> void special( Ctx& c )
{
  static const std::vector<std::string> pos = { "inf", "+inf", "infinity", "+infinity" }, neg = { "-inf", "-infinity" };
  auto mixed = [&]( std::string s ){ for( auto& x : s ) if( c.rng.chance( 0.5 ) ) x = char( std::toupper( x ) ); return s; };
  std::string s = mixed( c.rng.pick( pos ) ); c.desc << s; c.nontrivial( hashString( s ) ); bool ok = false; T x = U::convert<T>( s, ok ); c.expect( ok && x == std::numeric_limits<T>::infinity(), "infinity", s );
  s = mixed( c.rng.pick( neg ) ); ok = false; x = U::convert<T>( s, ok ); c.expect( ok && x == -std::numeric_limits<T>::infinity(), "negative-infinity", s );
  s = mixed( "nan" ); ok = false; x = U::convert<T>( s, ok ); c.expect( ok && std::isnan( x ), "nan", s );
}

}

SECTION( conversion, 6000, 100000 )
{
  switch( c.k % 7 ) { case 0: number<double>( c ); break; case 1: number<float>( c ); break; case 2: number<int>( c ); break; case 3: number<long>( c ); break; case 4: number<short>( c ); break; case 5: special<double>( c ); break; default: special<float>( c ); }
}

SECTION( conversion_unsigned, 2000, 30000 )
{
  std::size_t x = c.rng.chance( 0.3 ) ? c.rng.below( 20 ) : std::size_t( c.rng() >> c.rng.range( 0, 60 ) ); std::string s = std::to_string( x ); c.desc << s; c.nontrivial( x ); bool ok = false; std::size_t y = U::convert<std::size_t>( s, ok ); c.expect( ok && x == y, "unsigned", s );
}

SECTION( formatting, 4000, 60000 )
{
  long N = c.rng.range( 0, 9 ) == 0 ? 0 : 1 + long( c.rng() % 2000000000u ) >> c.rng.range( 0, 30 ); if( c.rng.chance( 0.3 ) ) { N = 1; int e = c.rng.range( 0, 9 ); for( int i = 0; i < e; i++ ) N *= 10; N -= c.rng.range( 0, 1 ); }
  long n = N ? long( c.rng() % std::uint64_t( N + 1 ) ) : 0; if( c.rng.chance( 0.1 ) ) n = N; char fill = c.rng.chance( 0.7 ) ? '0' : " _x"[ c.rng.below( 3 ) ]; std::string e = std::to_string( n ), m = std::to_string( N ), w = e + " of " + m; c.desc << w; c.nontrivial( combine( std::uint64_t( n ), std::uint64_t( N ) ) ); if( e.size() < m.size() ) e = std::string( m.size() - e.size(), fill ) + e;
  c.eq( U::format( n, N, fill ), e, "padding", w ); c.eq( U::format( unsigned( n ), unsigned( N ), fill ), e, "padding-unsigned", w ); c.eq( U::format( std::size_t( n ), std::size_t( N ), fill ), e, "padding-size", w ); if( fill == '0' ) c.eq( U::format( n, N ), e, "padding-default", w );
}

SECTION( paths, 8000, 120000 )
{
  static const std::vector<std::string> part = { "a", "b.txt", "archive.tar.gz", ".", "..", ".hidden", "name.", "with space.dat", "...", "x", "file.GML", "d.d" };
  std::string p = c.rng.chance( 0.4 ) ? "/" : ""; if( c.rng.chance( 0.3 ) ) p += text( c, "ab./", 12 ); else { int n = c.rng.range( 1, 4 ); for( int i = 0; i < n; i++ ) { if( i ) p += std::string( std::size_t( c.rng.range( 1, 2 ) ), '/' ); p += c.rng.pick( part ); } if( c.rng.chance( 0.2 ) ) p += std::string( std::size_t( c.rng.range( 1, 3 ) ), '/' ); }
  if( c.k % 100 == 0 ) p = std::string( std::size_t( c.rng.range( 500, 5000 ) ), 'q' ) + "/" + p;
  std::string w = visible( p ), base, copy = p; c.desc << w; if( !p.empty() ) c.nontrivial( hashString( p ) );
  if( !p.empty() ) { std::string q = p; while( q.size() > 1 && q.back() == '/' ) q.pop_back(); base = q == "/" ? q : q.substr( q.rfind( '/' ) == std::string::npos ? 0 : q.rfind( '/' ) + 1 ); }
  c.eq( U::basename( p ), base, "basename", w ); std::string st = base, ex; if( base != "." && base != ".." && base.rfind( '.' ) != std::string::npos ) { st = base.substr( 0, base.rfind( '.' ) ); ex = base.substr( base.rfind( '.' ) ); }
  c.eq( U::stem( p ), st, "stem", w ); c.eq( U::extension( p ), ex, "extension", w ); c.expect( p == copy, "path-changed", w );
}

SECTION( files, 150, 1500 )
{
  std::string d = c.scratch + "/c29_" + std::to_string( c.k ); ::mkdir( d.c_str(), 0700 ); using T = U::FileType; std::string n = "n" + text( c, "abc.", 8 ); c.desc << n; c.nontrivial( hashString( n ) + c.k );
  auto full = [&]( const std::string& s ){ return d + "/" + n + s; }; auto query = [&]( const std::string& p, T t, const std::string& what ){ c.expect( U::fileType( p ) == t, "type", what ); c.eq( U::isDirectory( p ), t == T::Directory, "directory", what ); c.eq( U::isRegularFile( p ), t == T::RegularFile, "regular", what ); c.eq( U::isSocket( p ), t == T::Socket, "socket", what ); };
  std::string file = full( "_f" ), dir = full( "_d" ), link = full( "_l" ), dlink = full( "_k" ), dangling = full( "_x" ), fifo = full( "_p" ), sock = d + "/s";
  query( file, T::Undefined, "missing file" ); c.expect( !U::exists( file ), "exists", "missing file" );
  { std::FILE* f = std::fopen( file.c_str(), "w" ); if( !f ) throw std::runtime_error( "Unable to create a file" ); if( c.rng.chance( 0.5 ) ) std::fputs( "content", f ); std::fclose( f ); }
  bool ok = ::mkdir( dir.c_str(), 0700 ) == 0 && ::symlink( file.c_str(), link.c_str() ) == 0 && ::symlink( dir.c_str(), dlink.c_str() ) == 0 && ::symlink( ( file + "missing" ).c_str(), dangling.c_str() ) == 0 && ::mkfifo( fifo.c_str(), 0600 ) == 0; if( !ok ) throw std::runtime_error( "Unable to create files" );
  query( file, T::RegularFile, "file" ); c.expect( U::exists( file ), "exists", "file" ); query( dir, T::Directory, "directory" ); c.expect( U::exists( dir ), "exists", "directory" ); query( link, T::SymbolicLink, "link" ); c.expect( U::exists( link ), "exists", "link to a file" ); query( dlink, T::SymbolicLink, "link to a directory" ); query( dangling, T::SymbolicLink, "dangling link" ); c.expect( !U::exists( dangling ), "exists", "dangling link" ); query( fifo, T::NamedPipe, "pipe" ); query( "/dev/null", T::CharacterDevice, "device" );
  sockaddr_un a; std::memset( &a, 0, sizeof a ); a.sun_family = AF_UNIX; if( sock.size() + 1 < sizeof a.sun_path ) { std::strcpy( a.sun_path, sock.c_str() ); int s = ::socket( AF_UNIX, SOCK_STREAM, 0 ); if( s >= 0 && ::bind( s, reinterpret_cast<sockaddr*>( &a ), sizeof a ) == 0 ) { query( sock, T::Socket, "socket" ); c.expect( U::exists( sock ), "exists", "socket" ); } if( s >= 0 ) ::close( s ); ::unlink( sock.c_str() ); }
  for( auto& p : { file, link, dlink, dangling, fifo } ) ::unlink( p.c_str() ); ::rmdir( dir.c_str() ); query( file, T::Undefined, "removed file" ); c.expect( !U::exists( file ) && !U::exists( dir ), "exists", "removed" ); ::rmdir( d.c_str() );
}

SECTION( temporary, 60, 300 )
{
  static const char* names[] = { "TMPDIR", "TMP", "TEMP", "TEMPDIR" }; std::map<std::string,std::string> old; for( auto n : names ) if( const char* v = ::getenv( n ) ) { old[n] = v; ::unsetenv( n ); }
  std::string none = U::tempDirectory(), n = names[ c.k % 4 ], v = "/some/" + text( c, "abc/", 10 ); ::setenv( n.c_str(), v.c_str(), 1 ); std::string one = U::tempDirectory(); ::unsetenv( n.c_str() ); for( auto& x : old ) ::setenv( x.first.c_str(), x.second.c_str(), 1 );
  c.desc << n << "=" << v; c.nontrivial( hashString( n + v ) ); c.expect( U::isDirectory( none ) || U::fileType( none ) == U::FileType::SymbolicLink, "default-directory", none ); c.eq( one, v, "variable", n );
}

SECTION( timer, 200, 2000 )
{
  U::Timer t; volatile double x = 0; int n = c.rng.range( 0, 20000 ); for( int i = 0; i < n; i++ ) x = x + i; double s = t.elapsed_s(), ms = t.elapsed_ms(), mu = t.elapsed_mu(), ns = t.elapsed_ns(), s2 = t.elapsed_s(), e = 1 + 1e-9; c.desc << n << " steps"; c.nontrivial( std::uint64_t( n ) + 1 );
  c.expect( s >= 0 && s * 1e3 <= ms * e && ms * 1e3 <= mu * e && mu * 1e3 <= ns * e && ns <= s2 * 1e9 * e, "units", strx( s ) + " " + strx( ms ) + " " + strx( mu ) + " " + strx( ns ) + " " + strx( s2 ) );
  auto before = std::chrono::steady_clock::now(); t.restart(); auto after = std::chrono::steady_clock::now(); double r = t.elapsed_s(); auto end = std::chrono::steady_clock::now(); using D = std::chrono::duration<double>; c.expect( r <= D( end - before ).count() * e && D( std::chrono::steady_clock::now() - after ).count() * e >= 0 && r >= 0, "restart", strx( r ) );
}
