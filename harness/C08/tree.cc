#include "bridge.hh"
#include "points.hh"

#include <aleph/geometry/CoverTree.hh>

using namespace vp;

namespace
{

struct Pt
{
  double x, y;
  bool operator<( const Pt& o ) const { return x < o.x || ( x == o.x && y < o.y ); }
  bool operator==( const Pt& o ) const { return x == o.x && y == o.y; }
};

std::ostream& operator<<( std::ostream& o, const Pt& p ) { return o << p.x << " " << p.y; }

struct L1 { double operator()( const Pt& a, const Pt& b ) const { return std::fabs( a.x - b.x ) + std::fabs( a.y - b.y ); } };
struct LI { double operator()( const Pt& a, const Pt& b ) const { return std::max( std::fabs( a.x - b.x ), std::fabs( a.y - b.y ) ); } };
struct L2 { double operator()( const Pt& a, const Pt& b ) const { return std::sqrt( ( a.x - b.x ) * ( a.x - b.x ) + ( a.y - b.y ) * ( a.y - b.y ) ); } };
struct Abs { double operator()( double a, double b ) const { return std::fabs( a - b ); } };

// Can every node of a level be given a parent in the next level such that the
// covering and the separating condition hold? Exhaustive search with a budget.
template <class P, class M> int assignable( const std::vector<P>& parents, const std::vector<P>& children, double cover, double separate, std::size_t i, std::vector<std::vector<std::size_t>>& used, long& budget )
{
  if( i == children.size() ) return 1;
  if( --budget < 0 ) return -1;
  for( std::size_t p = 0; p < parents.size(); p++ )
  {
    if( M()( parents[p], children[i] ) > cover ) continue;
    bool ok = true; for( auto j : used[p] ) ok = ok && M()( children[j], children[i] ) > separate;
    if( !ok ) continue;
    used[p].push_back( i ); int r = assignable<P,M>( parents, children, cover, separate, i + 1, used, budget ); used[p].pop_back();
    if( r ) return r;
  }
  return 0;
}

template <class P, class M> void verify( Ctx& c, const aleph::geometry::CoverTree<P,M>& T, const std::vector<P>& in, const std::string& what, bool unique )
{
  auto pts = T.points(); auto a = pts, b = in; std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() ); c.expect( a == b, "points", what + " stored " + std::to_string( a.size() ) + " inserted " + std::to_string( b.size() ) );
  c.expect( T.checkLevelInvariant(), "level-invariant", what ); c.expect( T.checkCoveringInvariant(), "covering-invariant", what ); c.expect( T.checkSeparatingInvariant(), "separating-invariant", what ); c.expect( T.isValid(), "valid", what );
  auto L = T.getNodesByLevel(); std::vector<P> l; for( auto& kv : L ) l.push_back( kv.second ); std::sort( l.begin(), l.end() ); c.expect( l == b, "levels-points", what );
  std::map<long,std::vector<P>> by; for( auto& kv : L ) by[ kv.first ].push_back( kv.second );
  c.eq( by.rbegin()->first, T.level(), "root-level", what ); c.eq( by.rbegin()->second.size(), std::size_t( 1 ), "single-root", what );
  if( !pts.empty() ) c.expect( by.rbegin()->second.front() == pts.front(), "root-first", what );
  long prev = T.level() + 1; bool consecutive = true; for( auto it = by.rbegin(); it != by.rend(); ++it ) { consecutive = consecutive && it->first == prev - 1; prev = it->first; } c.expect( consecutive, "levels-consecutive", what );
  for( auto& kv : by ) if( kv.first < T.level() && by.count( kv.first + 1 ) )
  {
    std::vector<std::vector<std::size_t>> used( by[ kv.first + 1 ].size() ); long budget = 20000; double cover = std::pow( 2.0, double( kv.first + 1 ) );
    int r = assignable<P,M>( by[ kv.first + 1 ], kv.second, cover, cover / 2, 0, used, budget ); c.expect( r != 0, "levels-admit-no-tree", what + " level " + std::to_string( kv.first ) );
  }
  if( unique ) { auto N = T.nodesToLevel(); bool ok = N.size() == L.size(); for( auto& kv : L ) ok = ok && N.count( kv.second ) && N.at( kv.second ) == kv.first; c.expect( ok, "levels-agree", what ); }
}

template <class P, class M> void history( Ctx& c, std::vector<P> in, const std::string& what, bool unique, bool harmonic )
{
  auto old = std::cerr.rdbuf( nullptr ); struct Restore { std::streambuf* b; ~Restore() { std::cerr.rdbuf( b ); std::cerr.clear(); } } restore { old };
  aleph::geometry::CoverTree<P,M> T; std::vector<P> now; std::size_t n = in.size();
  if( c.rng.chance( 0.3 ) ) { T.insert( in.begin(), in.end() ); now = in; verify<P,M>( c, T, now, what + " range", unique ); }
  else for( std::size_t i = 0; i < n; i++ ) { T.insert( in[i] ); now.push_back( in[i] ); if( n < 12 || i + 1 == n || c.rng.chance( 0.2 ) ) verify<P,M>( c, T, now, what + " after " + std::to_string( i + 1 ), unique ); }
  if( harmonic && unique ) { P p = in[ c.rng.below( n ) ]; T.isHarmonic( p ); verify<P,M>( c, T, now, what + " after harmonic test", unique ); }
}

} // namespace

SECTION( line, 3000, 40000 )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, c.k % 300 == 5 ? 400 : c.k % 6 == 0 ? 50 : 10 ) ); int mode = c.rng.range( 0, 5 ); std::vector<double> v;
  for( std::size_t i = 0; i < n; i++ ) v.push_back( mode == 0 ? c.rng.range( -20, 20 ) : mode == 1 ? c.rng.real( 0, 1 ) : mode == 2 ? std::pow( 2.0, c.rng.range( -12, 12 ) ) : mode == 3 ? c.rng.range( 0, 3 ) * 1000.0 + c.rng.real( 0, 1 ) : mode == 4 ? double( i ) : std::pow( 3.0, c.rng.real( -8, 8 ) ) * ( c.rng.chance( 0.5 ) ? 1 : -1 ) );
  bool dup = c.rng.chance( 0.25 ); if( !dup ) { std::set<double> seen; std::vector<double> u; for( auto x : v ) if( seen.insert( x ).second ) u.push_back( x ); v = u; }
  int order = c.rng.range( 0, 2 ); if( order == 1 ) std::sort( v.begin(), v.end() ); else if( order == 2 ) std::sort( v.rbegin(), v.rend() );
  std::set<double> s( v.begin(), v.end() ); c.desc << "line " << str( v ); if( v.size() > 2 ) c.nontrivial( dig( v ) );
  history<double,Abs>( c, v, "line", s.size() == v.size(), c.rng.chance( 0.3 ) );
}

SECTION( plane, 3000, 40000 )
{
  std::size_t n = static_cast<std::size_t>( c.rng.range( 1, c.k % 300 == 5 ? 400 : c.k % 6 == 0 ? 50 : 10 ) ); auto P = randomPoints( c.rng, n, 2 ); double s = std::pow( 2.0, c.rng.range( -6, 6 ) ); std::vector<Pt> v; std::set<Pt> seen; bool dup = c.rng.chance( 0.2 );
  for( auto& p : P ) { Pt q { p[0] * s, p[1] * s }; if( seen.insert( q ).second || dup ) v.push_back( q ); }
  int order = c.rng.range( 0, 3 ); if( order == 1 ) std::sort( v.begin(), v.end() ); else if( order == 2 ) { std::sort( v.begin(), v.end() ); std::reverse( v.begin(), v.end() ); }
  c.desc << "plane, metric " << c.k % 3 << " "; for( auto& p : v ) c.desc << "(" << p << ")"; if( v.size() > 2 ) { std::uint64_t h = 5; for( auto& p : v ) h = combine( combine( h, hashDouble( p.x ) ), hashDouble( p.y ) ); c.nontrivial( h ); }
  bool u = seen.size() == v.size(), h = c.rng.chance( 0.3 );
  switch( c.k % 3 ) { case 0: history<Pt,L1>( c, v, "plane L1", u, h ); break; case 1: history<Pt,L2>( c, v, "plane L2", u, h ); break; default: history<Pt,LI>( c, v, "plane maximum", u, h ); }
}
