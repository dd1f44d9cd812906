// Common driver machinery: section registry, per-case deterministic random
// numbers, monitors ("expect"), measured counters. Contains no library code.
#ifndef VP_COMMON_HH
#define VP_COMMON_HH

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vp
{

inline std::uint64_t mix( std::uint64_t z )
{
  z += 0x9e3779b97f4a7c15ULL;
  z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
  z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL;
  return z ^ ( z >> 31 );
}

inline std::uint64_t combine( std::uint64_t h, std::uint64_t v )
{
  return mix( h ^ ( v + 0x9e3779b97f4a7c15ULL + ( h << 6 ) + ( h >> 2 ) ) );
}

inline std::uint64_t hashString( const std::string& s )
{
  std::uint64_t h = 1469598103934665603ULL;
  for( unsigned char ch : s ) { h ^= ch; h *= 1099511628211ULL; }
  return h;
}

inline std::uint64_t hashDouble( double x )
{
  std::uint64_t b; if( x == 0 ) x = 0; std::memcpy( &b, &x, sizeof b ); return mix( b );
}

class Rng
{
public:
  using result_type = std::uint64_t;
  explicit Rng( std::uint64_t seed = 1 ) : s_( mix( seed ) ) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~result_type( 0 ); }
  result_type operator()() { s_ += 0x9e3779b97f4a7c15ULL; return mix( s_ ); }
  std::size_t below( std::size_t n ) { return n ? static_cast<std::size_t>( ( *this )() % n ) : 0; }
  // inclusive range
  int range( int a, int b ) { return a + static_cast<int>( below( static_cast<std::size_t>( b - a + 1 ) ) ); }
  double real() { return static_cast<double>( ( *this )() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double real( double a, double b ) { return a + ( b - a ) * real(); }
  double normal() { double u = real(), v = real(); if( u < 1e-300 ) u = 1e-300; return std::sqrt( -2 * std::log( u ) ) * std::cos( 6.283185307179586 * v ); }
  bool chance( double p ) { return real() < p; }
  template <class T> const T& pick( const std::vector<T>& v ) { return v[ below( v.size() ) ]; }
  template <class T> void shuffle( std::vector<T>& v ) { for( std::size_t i = v.size(); i > 1; --i ) std::swap( v[ i - 1 ], v[ below( i ) ] ); }
private:
  std::uint64_t s_;
};

struct Skip {};

struct SectionStats
{
  std::uint64_t cases = 0, checks = 0, nontrivial = 0, skipped = 0;
};

class Ctx
{
public:
  Rng rng{1};
  bool thorough = false;
  std::uint64_t k = 0;        // case number within the section
  std::uint64_t total = 1;    // number of cases of the section
  std::string scratch;        // private scratch directory of this process

  // Describes the current case; shown in samples and violation reports.
  std::ostringstream desc;

  // One observation of a monitor.
  void expect( bool ok, const std::string& key, const std::string& msg = std::string() )
  {
    ++checks_;
    if( !ok ) fail( key, msg );
  }

  template <class F> void expectf( bool ok, const std::string& key, F&& f )
  {
    ++checks_;
    if( !ok ) { std::ostringstream o; f( o ); fail( key, o.str() ); }
  }

  template <class A, class B> void eq( const A& actual, const B& expected, const std::string& key, const std::string& msg = std::string() )
  {
    ++checks_;
    if( !( actual == expected ) )
    {
      std::ostringstream o; o.precision( 17 );
      o << msg << " actual=" << actual << " expected=" << expected;
      fail( key, o.str() );
    }
  }

  // Comparison of floating point values; infinities and NaNs have to agree.
  void near( double actual, double expected, double tol, const std::string& key, const std::string& msg = std::string() )
  {
    ++checks_;
    bool ok = close( actual, expected, tol );
    if( !ok )
    {
      std::ostringstream o; o.precision( 17 );
      o << msg << " actual=" << actual << " expected=" << expected << " tol=" << tol;
      fail( key, o.str() );
    }
  }

  static bool close( double a, double b, double tol )
  {
    if( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
    if( std::isinf( a ) || std::isinf( b ) ) return a == b;
    return std::fabs( a - b ) <= tol * std::max( 1.0, std::max( std::fabs( a ), std::fabs( b ) ) );
  }

  // Marks the input of this case as non-trivial; `digest` identifies it.
  void nontrivial( std::uint64_t digest ) { digest_ = digest ? digest : 1; isNontrivial_ = true; }

  // The call must throw a standard exception.
  template <class F> void throws( F&& f, const std::string& key, const std::string& msg = std::string() )
  {
    bool thrown = false;
    try { f(); } catch( const std::exception& ) { thrown = true; }
    expect( thrown, key, msg + " (no exception)" );
  }

  void fail( const std::string& key, const std::string& msg );

  std::uint64_t checks_ = 0, digest_ = 0;
  bool isNontrivial_ = false;
  std::string section_;
  std::uint64_t caseIndex_ = 0;
};

using SectionFunction = void (*)( Ctx& );

struct Section
{
  std::string name;
  std::uint64_t quick, thorough;
  SectionFunction f;
};

std::vector<Section>& sections();

struct Registrar
{
  Registrar( const char* name, std::uint64_t q, std::uint64_t t, SectionFunction f ) { sections().push_back( { name, q, t, f } ); }
};

#define SECTION( name, q, t )                                        \
  static void section_##name( vp::Ctx& );                            \
  static vp::Registrar registrar_##name( #name, q, t, section_##name ); \
  static void section_##name( vp::Ctx& c )

// Pretty printing ------------------------------------------------------

template <class T> std::string str( const std::vector<T>& v )
{
  std::ostringstream o; o.precision( 10 ); o << "[";
  for( std::size_t i = 0; i < v.size(); i++ ) { if( i ) o << ","; o << +v[i]; }
  o << "]"; return o.str();
}

inline std::string str( const std::vector<std::string>& v )
{
  std::ostringstream o; o << "["; for( std::size_t i = 0; i < v.size(); i++ ) { if( i ) o << ","; o << '"' << v[i] << '"'; } o << "]"; return o.str();
}

template <class A, class B> std::string str( const std::vector<std::pair<A,B>>& v )
{
  std::ostringstream o; o.precision( 10 ); o << "[";
  for( std::size_t i = 0; i < v.size(); i++ ) { if( i ) o << ","; o << "(" << v[i].first << "," << v[i].second << ")"; }
  o << "]"; return o.str();
}

template <class T> std::string str( const std::vector<std::vector<T>>& v )
{
  std::string r = "["; for( std::size_t i = 0; i < v.size(); i++ ) { if( i ) r += ","; r += str( v[i] ); } return r + "]";
}

template <class T> std::string str( const std::set<T>& s ) { return str( std::vector<T>( s.begin(), s.end() ) ); }

template <class T> std::string strx( const T& x ) { std::ostringstream o; o.precision( 17 ); o << x; return o.str(); }

// Digest of nested vectors ---------------------------------------------

template <class T> typename std::enable_if<std::is_arithmetic<T>::value, std::uint64_t>::type dig( const T& x ) { return hashDouble( static_cast<double>( x ) ); }
inline std::uint64_t dig( const std::string& s ) { return hashString( s ); }
template <class A, class B> std::uint64_t dig( const std::pair<A,B>& p );
template <class T> std::uint64_t dig( const std::set<T>& v );
template <class T> std::uint64_t dig( const std::vector<T>& v )
{
  std::uint64_t h = v.size() + 77; for( const auto& x : v ) h = combine( h, dig( x ) ); return h;
}
template <class T> std::uint64_t dig( const std::set<T>& v )
{
  std::uint64_t h = v.size() + 78; for( const auto& x : v ) h = combine( h, dig( x ) ); return h;
}
template <class A, class B> std::uint64_t dig( const std::pair<A,B>& p ) { return combine( dig( p.first ), dig( p.second ) ); }

void writeFile( const std::string& path, const std::string& content );
std::string readFile( const std::string& path );

} // namespace vp

#endif
