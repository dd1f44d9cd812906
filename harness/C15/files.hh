// Generators of well-formed graph files. The model of a file is kept next to
// its text, so nothing here depends on the library.
#ifndef VP_C15_FILES_HH
#define VP_C15_FILES_HH

#include "../common.hh"
#include "../bridge.hh"

#include <cstdlib>
#include <fstream>
#include <numeric>

namespace vp
{

inline float  parseAs( const std::string& s, float )  { return std::strtof( s.c_str(), nullptr ); }
inline double parseAs( const std::string& s, double ) { return std::strtod( s.c_str(), nullptr ); }

// A number in one of several textual formats
inline std::string numberText( Rng& rng, bool negative = true )
{
  std::ostringstream o;
  double x = rng.chance( 0.3 ) ? rng.range( 0, 9 ) : rng.real( 0, 100 );
  if( negative && rng.chance( 0.3 ) ) x = -x;
  switch( rng.below( 4 ) )
  {
    case 0: o << static_cast<int>( x ); break;
    case 1: o.precision( 3 ); o << std::fixed << x; break;
    case 2: o.precision( rng.range( 1, 9 ) ); o << std::scientific << x * std::pow( 10.0, rng.range( -6, 6 ) ); break;
    default: o.precision( 9 ); o << x;
  }
  return o.str();
}

inline std::string nonZeroText( Rng& rng, bool negative = true )
{
  for( ;; ) { auto s = numberText( rng, negative ); if( std::strtof( s.c_str(), nullptr ) != 0 ) return s; }
}

inline std::string blanks( Rng& rng, int lo, int hi )
{
  std::string s; int n = rng.range( lo, hi ); for( int i = 0; i < n; i++ ) s += rng.chance( 0.8 ) ? ' ' : '\t'; return s;
}

// Lines that carry no meaning
inline std::string noise( Rng& rng, const std::vector<std::string>& comments )
{
  std::string s;
  while( rng.chance( 0.25 ) )
  {
    auto k = rng.below( 3 );
    if( k == 0 ) s += "\n"; else if( k == 1 ) s += blanks( rng, 1, 3 ) + "\n";
    else if( !comments.empty() ) s += rng.pick( comments ) + " a comment 1 2 3.5\n";
  }
  return s;
}

inline std::string word( Rng& rng )
{
  static const std::string L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  std::string s; int n = rng.range( 1, 5 ); for( int i = 0; i < n; i++ ) s += L[ rng.below( L.size() ) ]; return s;
}

inline std::string labelText( Rng& rng )
{
  std::string s = word( rng ); if( rng.chance( 0.3 ) ) s += " " + word( rng ); if( rng.chance( 0.2 ) ) s += rng.chance( 0.5 ) ? "-1" : "[x]"; return s;
}

struct Graph
{
  int n = 0;
  std::vector<std::pair<int,int>> edges;   // u != v, no repetition, random orientation
};

inline Graph randomGraph( Rng& rng, int maxN )
{
  Graph g; g.n = rng.range( 1, maxN );
  double p = rng.pick( std::vector<double>{ 0, 0.1, 0.3, 0.6, 1 } );
  for( int i = 0; i < g.n; i++ ) for( int j = i + 1; j < g.n; j++ )
    if( rng.chance( p ) ) g.edges.push_back( rng.chance( 0.5 ) ? std::make_pair( i, j ) : std::make_pair( j, i ) );
  rng.shuffle( g.edges );
  return g;
}

template <class K> void compareGraph( Ctx& c, const K& k, const std::map<VSet,double>& expected, const std::string& key, const std::string& file )
{
  auto actual = weightsOf( k );
  c.expectf( k.size() == actual.size(), key + "-duplicates", [&]( std::ostream& o ) { o << k.size() << " simplices in\n" << file; } );
  c.expectf( actual == expected, key, [&]( std::ostream& o ) { o << "actual " << text( actual ).substr( 0, 1500 ) << " expected " << text( expected ).substr( 0, 1500 ) << " file\n" << file.substr( 0, 2000 ); } );
}

} // namespace vp

#endif
