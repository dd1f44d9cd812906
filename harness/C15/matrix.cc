// Adjacency matrices, bipartite adjacency matrices and edge lists
#include "files.hh"

#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/EdgeLists.hh>

using namespace vp;
using namespace aleph::topology;

namespace
{

template <class T> std::string matrixText( Rng& rng, std::size_t h, std::size_t w, bool zeros, bool nans, bool plain, std::vector<std::vector<T>>& M )
{
  std::vector<std::string> comments = { "#", "# 1 2 3", "#1" };
  std::string s; M.assign( h, std::vector<T>( w ) );
  std::string last = "\n";
  for( std::size_t y = 0; y < h; y++ )
  {
    if( !plain ) s += noise( rng, comments );
    if( !plain ) s += blanks( rng, 0, 2 );
    for( std::size_t x = 0; x < w; x++ )
    {
      if( x ) s += plain ? " " : blanks( rng, 1, 3 );
      if( nans && rng.chance( 0.2 ) ) { s += rng.pick( std::vector<std::string>{ "nan", "NaN", "NAN" } ); M[y][x] = std::numeric_limits<T>::quiet_NaN(); continue; }
      auto t = zeros && rng.chance( 0.3 ) ? std::string( "0" ) : nonZeroText( rng );
      s += t; M[y][x] = parseAs( t, T() );
    }
    if( !plain ) s += blanks( rng, 0, 2 );
    if( y + 1 < h || rng.chance( 0.8 ) ) s += !plain && rng.chance( 0.1 ) ? "\r\n" : "\n";
  }
  return s;
}

template <class K, class R> void readAny( Ctx& c, R& reader, const std::string& text, K& k )
{
  if( c.rng.chance( 0.5 ) ) { std::istringstream in( text ); reader( in, k ); }
  else { auto f = c.scratch + "/m.txt"; writeFile( f, text ); reader( f, k ); }
}

template <class T, class V> void adjacency( Ctx& c, std::size_t n, bool plain )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  using W = io::AdjacencyMatrixReader::VertexWeightAssignmentStrategy;

  io::AdjacencyMatrixReader reader;
  int rounds = plain ? 1 : c.rng.range( 1, 3 );
  std::uint64_t h = 5;

  for( int r = 0; r < rounds; r++ )
  {
    if( r ) n = static_cast<std::size_t>( c.rng.range( 1, 7 ) );
    bool ignoreNaN = c.rng.chance( 0.3 ), ignoreZero = c.rng.chance( 0.5 );
    auto strategy = c.rng.below( 3 );
    bool functor = c.rng.chance( 0.4 );
    if( r || ignoreNaN || c.rng.chance( 0.5 ) ) reader.setIgnoreNaNs( ignoreNaN );
    if( r || ignoreZero || c.rng.chance( 0.5 ) ) reader.setIgnoreZeroWeights( ignoreZero );
    if( r || strategy != 0 ) reader.setVertexWeightAssignmentStrategy( strategy == 0 ? W::AssignGlobalMinimum : strategy == 1 ? W::AssignGlobalMaximum : W::AssignZero );

    std::vector<std::vector<T>> M;
    auto text = matrixText<T>( c.rng, n, n, true, ignoreNaN, plain, M );
    h = combine( h, dig( text ) );

    bool any = false; T lo = T(), hi = T();
    for( auto& row : M ) for( auto x : row ) if( !std::isnan( x ) ) { if( !any ) lo = hi = x; any = true; lo = std::min( lo, x ); hi = std::max( hi, x ); }
    if( !any ) throw Skip();
    auto f = []( T a, T b, T x ) { return a + 2 * b - x; };

    std::map<VSet,double> E;
    T vw = strategy == 0 ? lo : strategy == 1 ? hi : T();
    if( functor && strategy != 2 ) vw = f( hi, lo, vw );
    for( std::size_t i = 0; i < n; i++ ) E[ VSet{ static_cast<int>( i ) } ] = vw;
    for( std::size_t y = 0; y < n; y++ ) for( std::size_t x = y + 1; x < n; x++ )
    {
      T w = M[y][x];
      if( std::isnan( w ) || ( ignoreZero && w == 0 ) ) continue;
      E[ VSet{ static_cast<int>( y ), static_cast<int>( x ) } ] = functor ? f( hi, lo, w ) : w;
    }

    K k; // may contain simplices of a previous file
    if( c.rng.chance( 0.3 ) ) k.push_back( S( V( 40 ) ) );
    if( functor )
    {
      if( c.rng.chance( 0.5 ) ) { std::istringstream in( text ); reader( in, k, f ); }
      else { auto file = c.scratch + "/a.txt"; writeFile( file, text ); reader( file, k, f ); }
    }
    else readAny( c, reader, text, k );

    c.eq( reader.dimension(), n, "dimension" );
    compareGraph( c, k, E, "matrix", text );
    std::vector<double> w; for( auto&& s : k ) w.push_back( s.data() );
    c.expect( std::is_sorted( w.begin(), w.end() ), "order", str( w ) );
  }
  c.desc << n << "x" << n << " matrix, " << rounds << " files";
  if( n > 1 ) c.nontrivial( h );
}

template <class T, class V> void bipartite( Ctx& c, std::size_t height, std::size_t width, bool plain )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::BipartiteAdjacencyMatrixReader reader;
  int rounds = plain ? 1 : c.rng.range( 1, 3 );
  std::uint64_t h = 6;
  for( int r = 0; r < rounds; r++ )
  {
    if( r ) { height = static_cast<std::size_t>( c.rng.range( 1, 6 ) ); width = static_cast<std::size_t>( c.rng.range( 1, 6 ) ); }
    bool assignMin = c.rng.chance( 0.4 ), assignAbs = c.rng.chance( 0.3 );
    if( r || assignMin || c.rng.chance( 0.5 ) ) reader.setAssignMinimumVertexWeight( assignMin );
    if( r || assignAbs || c.rng.chance( 0.5 ) ) reader.setAssignMinimumAbsoluteVertexWeight( assignAbs );
    std::vector<std::vector<T>> M;
    auto text = matrixText<T>( c.rng, height, width, false, false, plain, M );
    h = combine( h, dig( text ) );

    std::map<VSet,double> E; std::map<VSet,double> other;
    std::vector<std::vector<T>> at( height + width ); T lo = M[0][0];
    for( std::size_t y = 0; y < height; y++ ) for( std::size_t x = 0; x < width; x++ )
    {
      T w = M[y][x]; lo = std::min( lo, w );
      at[y].push_back( w ); at[ height + x ].push_back( w );
      E[ VSet{ static_cast<int>( y ), static_cast<int>( height + x ) } ] = w;
    }
    for( std::size_t i = 0; i < height + width; i++ )
    {
      T w = lo;
      // the first weight of least magnitude is the one to report
      if( assignAbs ) w = *std::min_element( at[i].begin(), at[i].end(), []( T a, T b ) { return std::abs( a ) < std::abs( b ); } );
      else if( assignMin ) w = *std::min_element( at[i].begin(), at[i].end() );
      E[ VSet{ static_cast<int>( i ) } ] = w;
    }
    K k; readAny( c, reader, text, k );
    c.eq( reader.height(), height, "height" ); c.eq( reader.width(), width, "width" );
    c.eq( reader.assignMinimumVertexWeight(), assignMin, "flag" ); c.eq( reader.assignMinimumAbsoluteVertexWeight(), assignAbs, "flag" );
    compareGraph( c, k, E, "matrix", text );
    std::vector<double> w; for( auto&& s : k ) w.push_back( s.data() );
    c.expect( std::is_sorted( w.begin(), w.end() ), "order", str( w ) );
  }
  c.desc << height << "x" << width << " matrix";
  c.nontrivial( h );
}

template <class T, class V> void edgeList( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::EdgeListReader reader;
  int rounds = c.rng.range( 1, 3 );
  std::uint64_t h = 7;
  for( int r = 0; r < rounds; r++ )
  {
    auto g = randomGraph( c.rng, 12 );
    bool readWeights = c.rng.chance( 0.6 ), numeric = c.rng.chance( 0.5 );
    auto sep = c.rng.pick( std::vector<std::string>{ "[:space:]", ",", ":", ";" } );
    if( c.rng.chance( 0.7 ) ) sep = "[:space:]";
    if( r || !readWeights || c.rng.chance( 0.5 ) ) reader.setReadWeights( readWeights ); else readWeights = true;
    if( c.rng.chance( 0.5 ) ) reader.setTrimLines( true );
    if( r || sep != "[:space:]" || c.rng.chance( 0.5 ) ) reader.setSeparator( sep );

    std::vector<std::string> name; std::vector<int> id( static_cast<std::size_t>( g.n ), -1 );
    std::set<std::string> used;
    int offset = c.rng.range( 0, 3 ), step = c.rng.range( 1, 50 );
    for( int i = 0; i < g.n; i++ )
    {
      std::string s;
      do { s = numeric ? std::to_string( offset + step * i ) : word( c.rng ) + ( c.rng.chance( 0.3 ) ? std::to_string( i ) : "" ); } while( used.count( s ) );
      used.insert( s ); name.push_back( s );
      if( numeric ) id[ static_cast<std::size_t>( i ) ] = offset + step * i;
    }
    int next = 0;
    std::map<VSet,double> E; std::string text = noise( c.rng, { "#", "%", "\"", "*" } );
    auto see = [&]( int i ) { auto& x = id[ static_cast<std::size_t>( i ) ]; if( x < 0 ) x = next++; E[ VSet{ x } ] = 0; return x; };
    auto glue = [&] { return sep == "[:space:]" ? blanks( c.rng, 1, 3 ) : sep; };
    std::vector<std::pair<int,int>> rows = g.edges;
    if( !rows.empty() && c.rng.chance( 0.3 ) ) { auto e = c.rng.pick( rows ); std::swap( e.first, e.second ); rows.push_back( e ); } // repeated edge
    for( std::size_t i = 0; i < rows.size(); i++ )
    {
      auto e = rows[i];
      int u = see( e.first ), v = see( e.second );
      text += ( sep == "[:space:]" ? blanks( c.rng, 0, 2 ) : "" ) + name[ static_cast<std::size_t>( e.first ) ] + glue() + name[ static_cast<std::size_t>( e.second ) ];
      VSet key{ std::min( u, v ), std::max( u, v ) };
      double w = 0;
      if( c.rng.chance( 0.7 ) ) { auto t = numberText( c.rng ); text += glue() + t; if( readWeights ) w = parseAs( t, T() ); if( c.rng.chance( 0.1 ) ) text += glue() + "17"; }
      if( !E.count( key ) ) E[ key ] = w; // the first occurrence counts
      if( sep == "[:space:]" ) text += blanks( c.rng, 0, 2 );
      if( i + 1 < rows.size() || c.rng.chance( 0.8 ) ) { text += c.rng.chance( 0.1 ) ? "\r\n" : "\n"; text += noise( c.rng, { "#", "%", "\"", "*" } ); }
    }
    h = combine( h, dig( text ) );
    auto file = c.scratch + "/e.txt"; writeFile( file, text );
    K k;
    if( c.rng.chance( 0.5 ) ) reader( file, k ); else { std::ifstream in( file ); reader( in, k ); }
    compareGraph( c, k, E, "edges", text );
    c.eq( reader.readWeights(), readWeights, "flag" );
  }
  c.desc << rounds << " edge lists"; c.nontrivial( h );
}

} // namespace

SECTION( adjacency, 2400, 24000 )
{
  auto n = static_cast<std::size_t>( c.rng.range( 1, 9 ) );
  switch( c.k % 4 ) { case 0: adjacency<double,unsigned>( c, n, false ); break; case 1: adjacency<double,unsigned short>( c, n, false ); break;
    case 2: adjacency<float,unsigned>( c, n, false ); break; default: adjacency<float,unsigned short>( c, n, false ); }
}

// matrices with more entries than a small vertex type can count
SECTION( largeadjacency, 8, 32 )
{
  auto n = static_cast<std::size_t>( c.rng.range( 257, 290 ) );
  if( c.k % 2 ) adjacency<double,unsigned short>( c, n, true ); else adjacency<float,unsigned short>( c, n, true );
}

SECTION( bipartite, 2400, 24000 )
{
  auto h = static_cast<std::size_t>( c.rng.range( 1, 7 ) ), w = static_cast<std::size_t>( c.rng.range( 1, 7 ) );
  switch( c.k % 4 ) { case 0: bipartite<double,unsigned>( c, h, w, false ); break; case 1: bipartite<double,unsigned short>( c, h, w, false ); break;
    case 2: bipartite<float,unsigned>( c, h, w, false ); break; default: bipartite<float,unsigned short>( c, h, w, false ); }
}

SECTION( largebipartite, 8, 32 )
{
  auto h = static_cast<std::size_t>( c.rng.range( 240, 280 ) ), w = 66000 / h + static_cast<std::size_t>( c.rng.range( 0, 10 ) );
  if( c.k % 2 ) bipartite<double,unsigned short>( c, h, w, true ); else bipartite<float,unsigned short>( c, h, w, true );
}

SECTION( edgelist, 2400, 24000 )
{
  switch( c.k % 4 ) { case 0: edgeList<double,unsigned>( c ); break; case 1: edgeList<double,unsigned short>( c ); break;
    case 2: edgeList<float,unsigned>( c ); break; default: edgeList<float,unsigned short>( c ); }
}
