#ifndef VP_C26_HH
#define VP_C26_HH
#include "bridge.hh"

#include <atomic>
#include <locale>
#include <thread>

namespace c26
{
using namespace vp;

// Results as text with all digits
inline std::string show( double x ) { std::ostringstream o; o.precision( 17 ); o << x; return o.str(); }
inline std::string show( const std::string& s ) { return s; }
template <class T> std::string show( const std::vector<T>& v ) { std::ostringstream o; o.precision( 17 ); for( auto&& x : v ) o << x << " "; return o.str(); }
template <class T> std::string show( const std::vector<std::vector<T>>& v ) { std::string s; for( auto&& x : v ) s += "[" + show( x ) + "]"; return s; }
template <class T> std::string show( const std::set<T>& v ) { std::ostringstream o; o.precision( 17 ); for( auto&& x : v ) o << x << " "; return o.str(); }
template <class S> std::string show( const aleph::topology::SimplicialComplex<S>& K ) { std::ostringstream o; o.precision( 17 ); for( auto& kv : weightsOf( K ) ) { for( auto v : kv.first ) o << v << ","; o << ":" << kv.second << " "; } return o.str(); }
template <class T> std::string show( const aleph::PersistenceDiagram<T>& D ) { std::ostringstream o; o.precision( 17 ); o << D.dimension() << ": "; for( auto& p : toDgm( D ) ) o << p.first << "/" << p.second << " "; return o.str(); }
template <class T> std::string show( const std::vector<aleph::PersistenceDiagram<T>>& v ) { std::string s; for( auto&& x : v ) s += "[" + show( x ) + "]"; return s; }
#define STREAM( x ) ( [&]{ std::ostringstream o_; o_.precision( 17 ); o_ << ( x ); return o_.str(); }() )

struct Ops
{
  std::vector<std::string> name; std::vector<std::function<std::string()>> run;
  template <class F> void add( const std::string& n, F f ) { name.push_back( n ); run.push_back( [f]{ return show( f() ); } ); }
};

// Every thread performs all operations in an order of its own. Nothing has
// touched the shared objects before, so that work delayed until the first
// access happens in the threads, too; the single-threaded results are
// calculated afterwards.
inline void concurrently( Ctx& c, const Ops& ops, const std::string& what )
{
  // The standard library fills a cache of narrowed characters on first use
  // (regular expressions); this is not the behaviour of interest.
  static bool warm = false; if( !warm ) { auto& f = std::use_facet<std::ctype<char>>( std::locale() ); for( int i = -128; i < 128; i++ ) { f.narrow( char( i ), 0 ); f.narrow( char( i ), 1 ); f.widen( char( i ) ); } warm = true; }
  std::size_t n = ops.run.size(), T = std::size_t( c.rng.range( 2, 4 ) ); std::vector<std::vector<std::size_t>> order( T ); std::vector<std::vector<std::string>> result( T, std::vector<std::string>( n ) ); int mode = c.rng.range( 0, 2 );
  for( std::size_t t = 0; t < T; t++ ) { for( std::size_t i = 0; i < n; i++ ) order[t].push_back( i ); if( mode != 0 ) c.rng.shuffle( order[t] ); if( mode == 2 && t ) order[t] = order[0]; }
  std::atomic<std::size_t> ready( 0 ); std::vector<std::thread> threads;
  for( std::size_t t = 0; t < T; t++ ) threads.emplace_back( [&,t] { ready++; while( ready.load( std::memory_order_relaxed ) < T ) std::this_thread::yield(); for( auto i : order[t] ) { try { result[t][i] = ops.run[i](); } catch( const std::exception& e ) { result[t][i] = std::string( "exception " ) + e.what(); } } } );
  for( auto& t : threads ) t.join();
  for( std::size_t i = 0; i < n; i++ ) { std::string r; try { r = ops.run[i](); } catch( const std::exception& e ) { r = std::string( "exception " ) + e.what(); } for( std::size_t t = 0; t < T; t++ ) c.expect( result[t][i] == r, ops.name[i], what + ": thread " + std::to_string( t ) + " obtained " + result[t][i].substr( 0, 200 ) + ", single thread " + r.substr( 0, 200 ) ); }
}

} // namespace c26
#endif
