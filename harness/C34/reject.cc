// Files with exactly one defect. A consistent file is generated together with
// a list of defective variants; readers have to refuse every variant with an
// exception, accept the consistent file, and be as good as new afterwards.
#include "../C15/files.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>
#include <aleph/topology/io/TikZ.hh>
#include <aleph/topology/io/VTK.hh>
#include <aleph/topology/representations/Vector.hh>

#include <memory>

using namespace vp;
using namespace aleph::topology;

namespace
{

using S = Simplex<double,unsigned>;
using K = SimplicialComplex<S>;

using Read  = std::function<std::string( const std::string& )>;
using Make  = std::function<Read()>;
using Lines = std::vector<std::string>;

struct Doc
{
  std::string good;
  std::vector<std::pair<std::string,std::string>> bad;   // kind of defect, text
};

std::string join( const Lines& l, const std::string& sep = "\n" ) { std::string s; for( auto& x : l ) s += x + sep; return s; }

std::string complexText( const K& k ) { return std::to_string( k.size() ) + " " + text( weightsOf( k ) ); }

template <class M> std::string mapText( const M& m ) { std::map<std::string,std::string> o; for( auto& p : m ) { std::ostringstream a, b; a << p.first; b << p.second; o[ a.str() ] = b.str(); } std::string s; for( auto& p : o ) s += "|" + p.first + "=" + p.second; return s; }

std::string junk( Rng& rng ) { return rng.pick( Lines{ "x", "abc", "?", "one", "value", "w7" } ); }

std::string missing( Ctx& c, const std::string& ext ) { return c.scratch + ( c.rng.chance( 0.5 ) ? "/missing" : "/no-such-directory/file" ) + std::to_string( c.rng.below( 100 ) ) + ext; }

// One history of a reader object: consistent and defective files in turn
void history( Ctx& c, const std::string& ext, const Make& make, Doc (*generate)( Rng& ) )
{
  auto read = make();
  int steps = c.rng.range( 1, 4 );
  std::uint64_t h = 0;
  for( int i = 0; i < steps; i++ )
  {
    auto d = generate( c.rng );
    auto file = c.scratch + "/f" + std::to_string( i ) + ext;
    if( c.rng.chance( 0.4 ) )
    {
      writeFile( file, d.good );
      std::string a, b;
      try { a = read( file ); b = make()( file ); } catch( const std::exception& e ) { c.fail( "consistent-rejected", std::string( e.what() ) + " in\n" + d.good ); }
      c.expectf( a == b, "reused", [&]( std::ostream& o ) { o << a << " new reader " << b << " file\n" << d.good; } );
      c.desc << " good";
    }
    if( c.rng.chance( 0.15 ) )
    {
      auto f = missing( c, ext );
      c.throws( [&] { read( f ); }, "missing-file", f );
      c.desc << " missing";
    }
    if( !d.bad.empty() )
    {
      auto& p = c.rng.pick( d.bad );
      writeFile( file, p.second );
      c.throws( [&] { read( file ); }, p.first, p.second );
      c.desc << " " << p.first;
      h = combine( h, dig( p.second ) );
    }
  }
  auto d = generate( c.rng ); auto file = c.scratch + "/last" + ext; writeFile( file, d.good );
  std::string a, b;
  try { a = read( file ); b = make()( file ); } catch( const std::exception& e ) { c.fail( "consistent-rejected", std::string( e.what() ) + " in\n" + d.good ); }
  c.expectf( a == b, "reused-last", [&]( std::ostream& o ) { o << a << " new reader " << b << " file\n" << d.good; } );
  c.nontrivial( combine( h, dig( d.good ) ) );
}

// Tables ----------------------------------------------------------------

using Table = std::vector<Lines>;

std::string tableText( const Table& t, const std::vector<std::string>& gaps )
{
  std::string s; for( std::size_t i = 0; i < t.size(); i++ ) { s += gaps[i]; for( std::size_t j = 0; j < t[i].size(); j++ ) s += ( j ? " " : "" ) + t[i][j]; s += "\n"; } return s;
}

Doc tableDoc( Rng& rng, int h, int w, bool square )
{
  Table t( static_cast<std::size_t>( h ) ); std::vector<std::string> gaps;
  for( auto& r : t ) { for( int j = 0; j < w; j++ ) r.push_back( nonZeroText( rng ) ); gaps.push_back( noise( rng, { "#" } ) ); }
  Doc d; d.good = tableText( t, gaps );
  auto row = rng.below( t.size() );
  { auto u = t; u[ row ][ rng.below( u[row].size() ) ] = junk( rng ); d.bad.push_back( { "entry-not-a-number", tableText( u, gaps ) } ); }
  if( h >= 2 )
  {
    { auto u = t; int extra = rng.range( 1, 3 ); for( int i = 0; i < extra; i++ ) u[row].push_back( nonZeroText( rng ) ); d.bad.push_back( { "long-row", tableText( u, gaps ) } ); }
    if( w >= 2 ) { auto u = t; u[row].resize( 1 + rng.below( u[row].size() - 1 ) ); d.bad.push_back( { "short-row", tableText( u, gaps ) } ); }
    { auto u = t; auto other = ( row + 1 ) % t.size(); if( w >= 2 ) { u[row].push_back( u[other].back() ); u[other].pop_back(); d.bad.push_back( { "shifted-entry", tableText( u, gaps ) } ); } }
    if( square ) { auto u = t; u.pop_back(); d.bad.push_back( { "missing-row", tableText( u, gaps ) } ); }
  }
  if( square ) { auto u = t; u.push_back( t[row] ); auto g = gaps; g.push_back( "" ); d.bad.push_back( { "additional-row", tableText( u, g ) } ); }
  return d;
}

Doc squareDoc( Rng& rng ) { int n = rng.range( 1, 7 ); return tableDoc( rng, n, n, true ); }
Doc rectDoc( Rng& rng )   { return tableDoc( rng, rng.range( 1, 7 ), rng.range( 1, 7 ), false ); }

// Graphs ----------------------------------------------------------------

Doc gmlDoc( Rng& rng )
{
  auto g = randomGraph( rng, 8 ); bool named = rng.chance( 0.5 ); int base = rng.range( 0, 5 );
  auto id = [&]( int i ) { return named ? std::string( 1, static_cast<char>( 'a' + i ) ) + "n" : std::to_string( base + i ); };
  bool inl = rng.chance( 0.5 );
  auto open = [&]( const std::string& s ) { return inl ? s + " [" : s + "\n["; };
  auto node = [&]( const std::string& i, const std::string& extra ) { return open( "node" ) + "\nid " + i + "\n" + extra + "]"; };
  auto edge = [&]( const std::string& a, const std::string& b, const std::string& extra ) { return open( "edge" ) + "\nsource " + a + "\ntarget " + b + "\n" + extra + "]"; };
  Lines items;
  for( int i = 0; i < g.n; i++ ) items.push_back( node( id( i ), ( rng.chance( 0.4 ) ? "label \"" + labelText( rng ) + "\"\n" : "" ) + ( rng.chance( 0.4 ) ? "weight " + numberText( rng ) + "\n" : "" ) ) );
  for( auto& e : g.edges ) items.push_back( edge( id( e.first ), id( e.second ), rng.chance( 0.4 ) ? "value " + numberText( rng ) + "\n" : "" ) );
  auto file = [&]( const Lines& l ) { return open( "graph" ) + "\ndirected 0\n" + join( l ) + "]\n"; };
  Doc d; d.good = file( items );
  auto with = [&]( const std::string& x ) { auto l = items; l.insert( l.begin() + static_cast<long>( rng.below( l.size() + 1 ) ), x ); return file( l ); };
  d.bad.push_back( { "node-defined-twice", with( node( id( rng.range( 0, g.n - 1 ) ), "" ) ) } );
  std::string unknown = named ? "zz" + std::to_string( rng.range( 0, 9 ) ) : std::to_string( rng.chance( 0.5 ) ? base + g.n + rng.range( 0, 9 ) : base > 0 ? base - 1 : g.n );
  if( named ) unknown = rng.chance( 0.5 ) ? "zz" : "AA";
  auto known = id( rng.range( 0, g.n - 1 ) );
  d.bad.push_back( { "unknown-node", with( rng.chance( 0.5 ) ? edge( unknown, known, "" ) : edge( known, unknown, "" ) ) } );
  d.bad.push_back( { "surplus-bracket", d.good + "]\n" } );
  d.bad.push_back( { "attribute-outside", rng.chance( 0.5 ) ? "id 3\n" + d.good : d.good + "label \"x\"\n" } );
  if( !inl ) d.bad.push_back( { "level-not-opened", "graph\n" + d.good } );
  return d;
}

Doc pajekDoc( Rng& rng )
{
  auto g = randomGraph( rng, 8 ); bool listed = rng.chance( 0.7 );
  Lines v, e; if( listed ) for( int i = 0; i < g.n; i++ ) v.push_back( std::to_string( i + 1 ) + " \"" + labelText( rng ) + "\"" );
  for( auto& x : g.edges ) e.push_back( std::to_string( x.first + 1 ) + " " + std::to_string( x.second + 1 ) + ( rng.chance( 0.5 ) ? " " + numberText( rng ) : "" ) );
  std::string kw = rng.pick( Lines{ "*vertices", "*Vertices", "*verts" } ), ke = rng.pick( Lines{ "*edges", "*Edges", "*arcs", "*Arcs" } );
  auto file = [&]( const Lines& a, const Lines& b, const std::string& head ) { return head + "\n" + join( a ) + ke + "\n" + join( b ); };
  auto head = kw + " " + std::to_string( g.n );
  Doc d; d.good = file( v, e, head );
  d.bad.push_back( { "vertex-count-missing", file( v, e, kw ) } );
  auto with = []( Rng& r, Lines l, const std::string& x ) { l.insert( l.begin() + static_cast<long>( r.below( l.size() + 1 ) ), x ); return l; };
  auto known = std::to_string( rng.range( 1, g.n ) ), unknown = std::to_string( rng.chance( 0.5 ) ? 0 : g.n + rng.range( 1, 9 ) );
  d.bad.push_back( { "unknown-vertex", file( v, with( rng, e, rng.chance( 0.5 ) ? known + " " + unknown : unknown + " " + known + " 2" ), head ) } );
  d.bad.push_back( { "edge-unparsable", file( v, with( rng, e, rng.chance( 0.5 ) ? known : known + " " + junk( rng ) ), head ) } );
  if( listed )
  {
    d.bad.push_back( { "vertex-defined-twice", file( with( rng, v, known + " \"again\"" ), e, head ) } );
    d.bad.push_back( { "vertex-unparsable", file( with( rng, v, "abc" ), e, head ) } );
    if( !e.empty() ) d.bad.push_back( { "vertex-missing", file( v, e, kw + " " + std::to_string( g.n + rng.range( 1, 3 ) ) ) } );
  }
  return d;
}

Doc graphmlDoc( Rng& rng )
{
  auto g = randomGraph( rng, 7 );
  Lines keys = { "<key id=\"d0\" for=\"node\" attr.name=\"weight\" attr.type=\"double\"/>", "<key id=\"d1\" for=\"edge\" attr.name=\"weight\" attr.type=\"double\"/>" };
  auto node = [&]( const std::string& i, const std::string& x ) { return "<node id=\"" + i + "\">" + x + "</node>"; };
  auto edge = [&]( const std::string& i, const std::string& a, const std::string& b, const std::string& x ) { return "<edge id=\"" + i + "\" source=\"" + a + "\" target=\"" + b + "\">" + x + "</edge>"; };
  auto data = [&]( const std::string& k, const std::string& v ) { return "<data key=\"" + k + "\">" + v + "</data>"; };
  Lines l;
  for( int i = 0; i < g.n; i++ ) l.push_back( node( "n" + std::to_string( i ), rng.chance( 0.5 ) ? data( "d0", numberText( rng ) ) : "" ) );
  int m = 0; for( auto& e : g.edges ) l.push_back( edge( "e" + std::to_string( m++ ), "n" + std::to_string( e.first ), "n" + std::to_string( e.second ), rng.chance( 0.5 ) ? data( "d1", numberText( rng ) ) : "" ) );
  auto file = [&]( const Lines& k, const Lines& b ) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<graphml>\n" + join( k ) + "<graph id=\"G\" edgedefault=\"undirected\">\n" + join( b ) + "</graph>\n</graphml>\n"; };
  Doc d; d.good = file( keys, l );
  auto with = [&]( const std::string& x ) { auto b = l; b.insert( b.begin() + static_cast<long>( rng.below( b.size() + 1 ) ), x ); return file( keys, b ); };
  auto a = "n" + std::to_string( rng.range( 0, g.n - 1 ) ), u = rng.pick( Lines{ "zz", "n", "n99", "m0" } );
  d.bad.push_back( { "node-without-id", with( "<node/>" ) } );
  d.bad.push_back( { "edge-without-source", with( "<edge id=\"x\" target=\"" + a + "\"/>" ) } );
  d.bad.push_back( { "edge-without-target", with( "<edge id=\"x\" source=\"" + a + "\"/>" ) } );
  d.bad.push_back( { "edge-without-id", with( "<edge source=\"" + a + "\" target=\"" + a + "\"/>" ) } );
  d.bad.push_back( { "unknown-node", with( rng.chance( 0.5 ) ? edge( "x", a, u, "" ) : edge( "x", u, a, "" ) ) } );
  d.bad.push_back( { "data-without-key", with( rng.chance( 0.5 ) ? node( "y", "<data>3</data>" ) : edge( "x", a, a, "<data>3</data>" ) ) } );
  d.bad.push_back( { "node-weight", with( node( "y", data( "d0", junk( rng ) ) ) ) } );
  if( g.n > 1 ) { auto b = l; b.push_back( edge( "x", "n0", "n1", data( "d1", junk( rng ) ) ) ); d.bad.push_back( { "edge-weight", file( keys, b ) } ); }
  d.bad.push_back( { "key-incomplete", file( { rng.pick( Lines{ "<key for=\"node\" attr.name=\"weight\"/>", "<key id=\"d0\" attr.name=\"weight\"/>", "<key id=\"d0\" for=\"node\"/>" } ) }, l ) } );
  d.bad.push_back( { "key-kind", file( { keys[0], "<key id=\"d2\" for=\"" + junk( rng ) + "\" attr.name=\"q\"/>" }, l ) } );
  d.bad.push_back( { "no-graph", "<graphml>\n" + join( keys ) + "</graphml>\n" } );
  d.bad.push_back( { "no-root", "<graph>\n" + join( l ) + "</graph>\n" } );
  d.bad.push_back( { "not-closed", d.good.substr( 0, d.good.size() - 1 - rng.below( 14 ) - 2 ) } );
  return d;
}

Doc edgesDoc( Rng& rng )
{
  auto g = randomGraph( rng, 8 ); bool num = rng.chance( 0.5 ); Lines l;
  auto id = [&]( int i ) { return num ? std::to_string( i ) : std::string( 1, static_cast<char>( 'a' + i ) ); };
  for( auto& e : g.edges ) l.push_back( id( e.first ) + " " + id( e.second ) + ( rng.chance( 0.7 ) ? " " + numberText( rng ) : "" ) );
  Doc d; d.good = join( l );
  l.insert( l.begin() + static_cast<long>( rng.below( l.size() + 1 ) ), id( rng.range( 0, g.n - 1 ) ) ); d.bad.push_back( { "single-token", join( l ) } );
  return d;
}

// Meshes and grids --------------------------------------------------------

Doc plyDoc( Rng& rng )
{
  std::size_t n = 3 + rng.below( 7 ), m = rng.below( 7 );
  Lines v, f; for( std::size_t i = 0; i < n; i++ ) v.push_back( numberText( rng ) + " " + numberText( rng ) + " " + numberText( rng ) );
  auto face = []( std::size_t a, std::size_t b, std::size_t e ) { return "3 " + std::to_string( a ) + " " + std::to_string( b ) + " " + std::to_string( e ); };
  for( std::size_t i = 0; i < m; i++ ) { auto a = rng.below( n ), b = ( a + 1 ) % n, e = ( a + 2 ) % n; auto s = face( a, b, e ); if( std::find( f.begin(), f.end(), s ) == f.end() && n > 4 ) f.push_back( s ); }
  m = f.size();
  struct H { std::string magic = "ply", format = "format ascii 1.0", x = "property float x", y = "property float y", z = "property double z", end = "end_header\n"; std::string nv, nf; } h;
  h.nv = std::to_string( n ); h.nf = std::to_string( m );
  auto file = [&]( const H& q, const Lines& a, const Lines& b ) { return q.magic + "\n" + q.format + "\ncomment c\nelement vertex " + q.nv + "\n" + q.x + "\n" + q.y + "\n" + q.z + "\nelement face " + q.nf + "\nproperty list uchar int vertex_indices\n" + q.end + join( a ) + join( b ); };
  Doc d; d.good = file( h, v, f );
  { auto q = h; q.magic = rng.pick( Lines{ "PLY2", "off", "" } ); d.bad.push_back( { "magic", file( q, v, f ) } ); }
  { auto q = h; q.format = rng.pick( Lines{ "format ascii 2.0", "format binary 1.0", "format", "comment no format", "format ascii" } ); d.bad.push_back( { "format", file( q, v, f ) } ); }
  { auto q = h; q.nv = ""; d.bad.push_back( { "vertex-count-missing", file( q, v, f ) } ); }
  { auto q = h; q.nf = junk( rng ); d.bad.push_back( { "face-count-missing", file( q, v, f ) } ); }
  { auto q = h; q.end = ""; d.bad.push_back( { "header-not-closed", file( q, v, f ) } ); }
  { auto q = h; ( rng.chance( 0.5 ) ? q.x : q.y ) = "property quux x"; d.bad.push_back( { "property-type", file( q, v, f ) } ); }
  { auto q = h; q.z = "property float"; d.bad.push_back( { "property-name-missing", file( q, v, f ) } ); }
  { auto q = h; auto k = rng.below( 3 ); ( k == 0 ? q.x : k == 1 ? q.y : q.z ) = "property float other"; d.bad.push_back( { "coordinate-missing", file( q, v, f ) } ); }
  { auto q = h; q.nf = std::to_string( m + 1 + rng.below( 3 ) ); d.bad.push_back( { "too-few-faces", file( q, v, f ) } ); }
  { auto q = h; q.nv = std::to_string( n + m + 1 + rng.below( 3 ) ); d.bad.push_back( { "too-few-vertices", file( q, v, f ) } ); }
  { auto a = v; a[ rng.below( n ) ] = rng.pick( Lines{ "1 2", "1", "x 1 2", "1 y 2", "1 2 z" } ); d.bad.push_back( { "coordinates", file( h, a, f ) } ); }
  auto with = [&]( const std::string& x ) { auto q = h; q.nf = std::to_string( m + 1 ); auto b = f; b.insert( b.begin() + static_cast<long>( rng.below( b.size() + 1 ) ), x ); return file( q, v, b ); };
  { std::size_t i[3] = { 0, 1, 2 }; i[ rng.below( 3 ) ] = n + ( rng.chance( 0.5 ) ? 0 : rng.below( 1000 ) ); d.bad.push_back( { "unknown-vertex", with( face( i[0], i[1], i[2] ) ) } ); }
  { std::size_t i[3] = { 0, 1, 2 }; auto k = rng.below( 3 ); i[k] = i[ ( k + 1 ) % 3 ]; d.bad.push_back( { "repeated-vertex", with( face( i[0], i[1], i[2] ) ) } ); }
  d.bad.push_back( { "face-size", with( rng.pick( Lines{ "4 0 1 2 0", "2 0 1", "1 0", "5 0 1 2 0 1" } ) ) } );
  d.bad.push_back( { "face-incomplete", with( rng.pick( Lines{ "3 0 1", "3", "3 0 x 2", "y 0 1 2" } ) ) } );
  return d;
}

Doc vtkDoc( Rng& rng )
{
  std::size_t a = 1 + rng.below( 4 ), b = 1 + rng.below( 4 ), e = 1 + rng.below( 3 ), n = a * b * e;
  Lines p, v; for( std::size_t i = 0; i < n; i++ ) { p.push_back( numberText( rng ) + " " + numberText( rng ) + " " + numberText( rng ) ); v.push_back( numberText( rng ) ); }
  struct H { std::string format = "ASCII", dims, points, data, scalars = "SCALARS f double 1", table = "LOOKUP_TABLE default"; } h;
  h.dims = std::to_string( a ) + " " + std::to_string( b ) + " " + std::to_string( e ); h.points = h.data = std::to_string( n );
  if( rng.chance( 0.3 ) ) h.scalars = "SCALARS f float";
  auto file = [&]( const H& q, const Lines& x, const Lines& y ) { return "# vtk DataFile Version 3.0\nVTK Output\n" + q.format + "\nDATASET STRUCTURED_GRID\nDIMENSIONS " + q.dims + "\nPOINTS " + q.points + " float\n" + join( x ) + "POINT_DATA " + q.data + "\n" + q.scalars + "\n" + q.table + "\n" + join( y ); };
  Doc d; d.good = file( h, p, v );
  { auto q = h; q.format = "BINARY"; d.bad.push_back( { "binary", file( q, p, v ) } ); }
  { auto q = h; q.data = std::to_string( rng.chance( 0.5 ) ? n + 1 + rng.below( 5 ) : n - 1 ); d.bad.push_back( { "data-count", file( q, p, v ) } ); }
  { auto q = h; q.scalars = "SCALARS f double " + std::to_string( rng.range( 2, 4 ) ); d.bad.push_back( { "components", file( q, p, v ) } ); }
  { auto q = h; q.table = "LOOKUP_TABLE other"; d.bad.push_back( { "lookup-table", file( q, p, v ) } ); }
  { auto y = v; y.push_back( "1" ); d.bad.push_back( { "too-many-values", file( h, p, y ) } ); }
  { auto y = v; y.pop_back(); d.bad.push_back( { "too-few-values", file( h, p, y ) } ); }
  { auto x = p; x[ rng.below( n ) ] += " 7"; d.bad.push_back( { "too-many-coordinates", file( h, x, v ) } ); }
  { auto q = h; auto k = rng.below( 3 ); q.dims = std::to_string( a + ( k == 0 ) ) + " " + std::to_string( b + ( k == 1 ) ) + " " + std::to_string( e + ( k == 2 ) ); d.bad.push_back( { "dimensions", file( q, p, v ) } ); }
  return d;
}

Doc lexDoc( Rng& rng )
{
  auto block = [&]( int i ) { std::string s = "m" + std::to_string( i ) + "=["; int q = rng.range( 1, 4 ); for( int j = 0; j < q; j++ ) s += std::string( j ? "," : "" ) + "[" + std::to_string( rng.range( 1, 5 ) ) + "," + std::to_string( rng.range( 6, 9 ) ) + "," + std::to_string( rng.range( 10, 12 ) ) + "]"; return s + "]"; };
  Lines l; int m = rng.range( 2, 5 ); for( int i = 0; i < m; i++ ) l.push_back( block( i ) );
  Doc d; d.good = join( l );
  auto i = rng.below( l.size() - 1 ); l[i].pop_back(); if( rng.chance( 0.4 ) ) l[i].pop_back();
  d.bad.push_back( { "block-not-closed", join( l ) } );
  return d;
}

// Diagrams ----------------------------------------------------------------

Doc rawDoc( Rng& rng )
{
  Lines l; int n = rng.range( 1, 8 ); for( int i = 0; i < n; i++ ) l.push_back( numberText( rng ) + " " + numberText( rng ) );
  Doc d; d.good = join( l );
  l.insert( l.begin() + static_cast<long>( rng.below( l.size() + 1 ) ), numberText( rng ) ); d.bad.push_back( { "single-value", join( l ) } );
  return d;
}

Doc jsonDoc( Rng& rng )
{
  struct D { std::string dimension, betti, size, points; };
  std::vector<D> v( 1 + rng.below( 3 ) );
  std::vector<int> betti, size;
  for( auto& x : v )
  {
    int n = rng.range( 1, 5 ), b = 0; std::string p;
    for( int i = 0; i < n; i++ ) { bool inf = rng.chance( 0.3 ); b += inf; p += std::string( i ? "," : "" ) + "[\"" + numberText( rng ) + "\",\"" + ( inf ? std::string( "inf" ) : numberText( rng ) ) + "\"]"; }
    x = { std::to_string( rng.range( 0, 3 ) ), std::to_string( b ), std::to_string( n ), "[" + p + "]" }; betti.push_back( b ); size.push_back( n );
  }
  bool single = v.size() == 1 && rng.chance( 0.5 );
  auto one = []( const D& x ) { auto m = []( const std::string& k, const std::string& t ) { return t.empty() ? std::string() : "\"" + k + "\": " + t + ",\n"; }; return "{\n" + m( "betti", x.betti ) + m( "dimension", x.dimension ) + m( "size", x.size ) + m( "diagram", x.points ) + "\"name\": \"q\"\n}"; };
  auto file = [&]( const std::vector<D>& w ) { if( single ) return one( w[0] ) + "\n"; std::string s = "{ \"diagrams\": [\n"; for( std::size_t i = 0; i < w.size(); i++ ) s += ( i ? ",\n" : "" ) + one( w[i] ); return s + "\n] }\n"; };
  Doc d; d.good = file( v );
  auto i = rng.below( v.size() );
  auto change = [&]( const std::string& kind, const std::function<void( D& )>& f ) { auto w = v; f( w[i] ); d.bad.push_back( { kind, file( w ) } ); };
  change( "size", [&]( D& x ) { x.size = std::to_string( size[i] + ( rng.chance( 0.5 ) ? -1 : rng.range( 1, 4 ) ) ); } );
  change( "betti", [&]( D& x ) { x.betti = std::to_string( betti[i] > 0 && rng.chance( 0.5 ) ? betti[i] - 1 : betti[i] + rng.range( 1, 3 ) ); } );
  change( "size-missing", [&]( D& x ) { x.size = ""; } );
  change( "betti-missing", [&]( D& x ) { x.betti = ""; } );
  change( "dimension-missing", [&]( D& x ) { x.dimension = ""; } );
  change( "dimension-kind", [&]( D& x ) { x.dimension = rng.pick( Lines{ "-1", "1.5", "\"1\"", "[]" } ); } );
  if( !single ) change( "points-missing", [&]( D& x ) { x.points = ""; } );
  change( "points-kind", [&]( D& x ) { x.points = rng.pick( Lines{ "3", "\"a\"", "{}", "null" } ); } );
  change( "point-kind", [&]( D& x ) { x.points.insert( x.points.size() - 1, rng.pick( Lines{ ",[1,2]", ",[\"1\"]", ",[\"1\",\"2\",\"3\"]", ",3", ",[]", ",\"1\"", ",[\"1\",2]", ",[1,\"2\"]" } ) ); x.size = std::to_string( size[i] + 1 ); } );
  d.bad.push_back( { "not-an-object", rng.pick( Lines{ "[]", "3", "\"x\"", "[" + one( v[0] ) + "]" } ) } );
  d.bad.push_back( { "no-diagrams", "{ \"other\": [] }" } );
  d.bad.push_back( { "diagrams-kind", "{ \"diagrams\": " + rng.pick( Lines{ "3", "{}", "\"x\"" } ) + " }" } );
  d.bad.push_back( { "diagram-kind", "{ \"diagrams\": [ " + one( v[0] ) + ", " + rng.pick( Lines{ "3", "[]", "\"x\"", "null" } ) + " ] }" } );
  { auto s = d.good; while( !s.empty() && s.back() != '}' ) s.pop_back(); s.pop_back(); d.bad.push_back( { "not-closed", s } ); }
  d.bad.push_back( { "empty", "" } );
  return d;
}

template <class D> std::string diagramText( const D& d ) { std::string s = std::to_string( d.dimension() ) + ":"; for( auto&& p : d ) s += strx( p.x() ) + "," + strx( p.y() ) + ";"; return s; }

// Readers -----------------------------------------------------------------

template <class R, class F> Make maker( F extra, std::function<void( R& )> setup = nullptr )
{
  return [=]() -> Read { auto r = std::make_shared<R>(); if( setup ) setup( *r ); return [=]( const std::string& f ) { K k; ( *r )( f, k ); return complexText( k ) + extra( *r ); }; };
}

template <class R> std::string none( R& ) { return std::string(); }

} // namespace

SECTION( adjacency, 300, 6000 ) { history( c, ".txt", maker<io::AdjacencyMatrixReader>( []( io::AdjacencyMatrixReader& r ) { return "/" + std::to_string( r.dimension() ); } ), squareDoc ); }
SECTION( bipartite, 300, 6000 ) { history( c, ".txt", maker<io::BipartiteAdjacencyMatrixReader>( []( io::BipartiteAdjacencyMatrixReader& r ) { return "/" + std::to_string( r.height() ) + "/" + std::to_string( r.width() ); } ), rectDoc ); }
SECTION( matrix, 300, 6000 )    { history( c, ".txt", maker<io::MatrixReader>( []( io::MatrixReader& r ) { return "/" + std::to_string( r.height() ) + "/" + std::to_string( r.width() ); } ), rectDoc ); }
SECTION( gml, 400, 8000 )       { history( c, ".gml", maker<io::GMLReader>( []( io::GMLReader& r ) { return mapText( r.getNodeAttribute( "label" ) ) + mapText( r.id_to_index<unsigned>() ); } ), gmlDoc ); }
SECTION( graphml, 500, 9000 )   { history( c, ".graphml", maker<io::GraphMLReader>( none<io::GraphMLReader> ), graphmlDoc ); }
SECTION( pajek, 400, 8000 )     { history( c, ".net", maker<io::PajekReader>( []( io::PajekReader& r ) { return mapText( r.getLabelMap() ); } ), pajekDoc ); }
SECTION( edges, 200, 4000 )     { bool w = c.rng.chance( 0.5 ), t = c.rng.chance( 0.5 ); history( c, ".txt", maker<io::EdgeListReader>( none<io::EdgeListReader>, [=]( io::EdgeListReader& r ) { r.setReadWeights( w ); r.setTrimLines( t ); } ), edgesDoc ); }
SECTION( ply, 600, 10000 )      { history( c, ".ply", maker<io::PLYReader>( none<io::PLYReader> ), plyDoc ); }
SECTION( vtk, 400, 8000 )       { history( c, ".vtk", maker<io::VTKStructuredGridReader>( []( io::VTKStructuredGridReader& r ) { return r.scalarsName() + "/" + r.scalarsType(); } ), vtkDoc ); }
SECTION( spectrum, 60, 1000 )   { history( c, ".txt", maker<io::FlexSpectrumReader>( none<io::FlexSpectrumReader> ), []( Rng& rng ) { Doc d; int n = rng.range( 1, 6 ); for( int i = 0; i < n; i++ ) d.good += std::to_string( 100 + i ) + " " + numberText( rng ) + "\n"; return d; } ); c.throws( [&] { io::FlexSpectrumReader r; K k; r( missing( c, ".txt" ), k ); }, "missing-file" ); }

SECTION( generic, 500, 10000 )
{
  auto make = maker<io::SimplicialComplexReader>( []( io::SimplicialComplexReader& r ) { return "/" + str( r.labels() ); } );
  switch( c.rng.below( 5 ) )
  {
    case 0:  history( c, ".gml", make, gmlDoc ); break;
    case 1:  history( c, ".net", make, pajekDoc ); break;
    case 2:  history( c, ".ply", make, plyDoc ); break;
    case 3:  history( c, ".vtk", make, vtkDoc ); break;
    default: history( c, ".txt", make, edgesDoc );
  }
  io::SimplicialComplexReader r; K k; auto f = missing( c, c.rng.pick( Lines{ ".gml", ".net", ".ply", ".vtk", ".h5", ".txt", "" } ) );
  c.throws( [&] { r( f, k ); }, "missing-file", f );
}

SECTION( lexicographic, 200, 4000 )
{
  history( c, ".txt", []() -> Read { auto r = std::make_shared<io::LexicographicTriangulationReader>(); return [=]( const std::string& f ) { std::vector<K> k; ( *r )( f, k ); std::string s; for( auto& x : k ) s += complexText( x ) + "\n"; return s; }; }, lexDoc );
}

SECTION( raw, 200, 4000 )
{
  history( c, ".txt", []() -> Read { return []( const std::string& f ) { return diagramText( aleph::io::load<double>( f ) ); }; }, rawDoc );
}

SECTION( json, 500, 9000 )
{
  history( c, ".json", []() -> Read { return []( const std::string& f ) { std::string s; for( auto& d : aleph::io::readJSON<double>( f ) ) s += diagramText( d ) + "\n"; return s; }; }, jsonDoc );
}

SECTION( functions, 100, 2000 )
{
  auto doc = []( Rng& rng ) { Doc d; int n = rng.range( 1, 6 ); for( int i = 0; i < n; i++ ) d.good += numberText( rng ) + " "; d.good += "\n"; return d; };
  history( c, ".txt", []() -> Read { return []( const std::string& f ) { std::string s; for( auto& k : io::loadFunctions<K>( f ) ) s += complexText( k ) + "\n"; return s; }; }, doc );
  using M = aleph::topology::BoundaryMatrix<representations::Vector<unsigned>>;
  M m; std::vector<double> v; auto f = missing( c, ".txt" );
  c.throws( [&] { io::loadFunctions<K>( f ); }, "missing-file", f );
  c.throws( [&] { io::loadFunction( f, m, v ); }, "missing-file", f );
  auto g = c.scratch + "/values.txt"; writeFile( g, c.rng.pick( Lines{ "", "\n", "abc\n", "  \n" } ) );
  c.throws( [&] { io::loadFunction( g, m, v ); }, "no-values" );
  auto d = doc( c.rng ); writeFile( g, d.good );
  try { io::loadFunction( g, m, v ); c.eq( std::size_t( m.getNumColumns() ), v.size(), "columns" ); } catch( const std::exception& e ) { c.fail( "consistent-rejected", e.what() ); }
}

SECTION( boundary, 200, 4000 )
{
  using M = aleph::topology::BoundaryMatrix<representations::Vector<unsigned>>;
  Lines l; auto n = 2 + c.rng.below( 5 ); for( std::size_t i = 0; i < n; i++ ) l.push_back( "0" );
  auto m = c.rng.below( 5 ); for( std::size_t i = 0; i < m; i++ ) { auto a = c.rng.below( n ), b = ( a + 1 ) % n; l.push_back( "1 " + std::to_string( a ) + " " + std::to_string( b ) ); }
  auto good = join( l );
  auto load = [&]( const std::string& t ) { auto f = c.scratch + "/m.txt"; writeFile( f, t ); return c.rng.chance( 0.5 ) ? M::load( f ) : [&] { std::istringstream in( t ); return M::load( in ); }(); };
  auto total = l.size() + 1;
  auto bad = c.rng.pick( std::vector<std::pair<std::string,std::string>>{
    { "unknown-column", "1 0 " + std::to_string( total + c.rng.below( 9 ) ) }, { "repeated-column", "1 1 1" }, { "dimension", "2 0 1" }, { "dimension", "0 0 1" }, { "dimension", "1 0" }, { "not-a-number", "1 0 x" }, { "not-a-number", "y 0 1" } } );
  l.push_back( bad.second );
  c.throws( [&] { load( join( l ) ); }, bad.first, join( l ) );
  try { c.eq( load( good ).getNumColumns(), total - 1, "columns", good ); } catch( const std::exception& e ) { c.fail( "consistent-rejected", e.what() + good ); }
  c.desc << " " << bad.first; c.nontrivial( dig( l ) );
}

SECTION( sparse, 400, 8000 )
{
  // Several files belong together
  int n = c.rng.range( 2, 9 ), graphs = c.rng.range( 2, 3 ); if( n < graphs ) n = graphs;
  std::vector<int> g; for( int i = 0; i < n; i++ ) g.push_back( i < graphs ? i + 1 : c.rng.range( 1, graphs ) ); c.rng.shuffle( g );
  Lines a, ind, lab, nl, att, eatt; for( int i = 0; i < n; i++ ) { ind.push_back( std::to_string( g[ static_cast<std::size_t>( i ) ] ) ); nl.push_back( word( c.rng ) ); att.push_back( numberText( c.rng ) + ", " + numberText( c.rng ) ); }
  for( int i = 0; i < graphs; i++ ) lab.push_back( word( c.rng ) );
  for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) if( i != j && g[ static_cast<std::size_t>( i ) ] == g[ static_cast<std::size_t>( j ) ] && c.rng.chance( 0.6 ) ) { if( j < i && std::find( a.begin(), a.end(), std::to_string( j + 1 ) + ", " + std::to_string( i + 1 ) ) != a.end() ) continue; a.push_back( std::to_string( i + 1 ) + ", " + std::to_string( j + 1 ) ); eatt.push_back( numberText( c.rng ) ); }
  bool readLabels = c.rng.chance( 0.5 ), readNodes = c.rng.chance( 0.5 ), readAtt = c.rng.chance( 0.5 ), readE = c.rng.chance( 0.5 );
  auto make = [&]() -> Read
  {
    auto r = std::make_shared<io::SparseAdjacencyMatrixReader>(); r->setReadGraphLabels( readLabels ); r->setReadNodeLabels( readNodes ); r->setReadNodeAttributes( readAtt ); r->setReadEdgeAttributes( readE ); r->setTrimLines();
    if( readAtt ) r->setNodeAttributeIndex( 1 ); if( readE ) r->setEdgeAttributeIndex( 0 );
    return [=]( const std::string& f ) { std::vector<K> k; ( *r )( f, k ); std::string s; for( auto& x : k ) s += complexText( x ) + "\n"; std::vector<std::string> gl, no; r->graphLabels( std::back_inserter( gl ) ); r->nodeLabels( std::back_inserter( no ) ); return s + str( gl ) + str( no ); };
  };
  // a set of files; `drop` names a companion that is left out
  int count = 0;
  auto store = [&]( const Lines& A, const Lines& I, const Lines& L, const Lines& E, const std::string& drop ) { auto b = c.scratch + "/s" + std::to_string( c.k ) + "x" + std::to_string( count++ ); auto put = [&]( const std::string& suffix, const Lines& l ) { if( drop != suffix ) writeFile( b + suffix, join( l ) ); }; put( "_A.txt", A ); put( "_graph_indicator.txt", I ); put( "_graph_labels.txt", L ); put( "_node_labels.txt", nl ); put( "_node_attributes.txt", att ); put( "_edge_attributes.txt", E ); return b + "_A.txt"; };
  auto good = store( a, ind, lab, eatt, "" );
  std::vector<std::pair<std::string,std::string>> bad;
  bad.push_back( { "adjacency-missing", store( a, ind, lab, eatt, "_A.txt" ) } );
  bad.push_back( { "indicator-missing", store( a, ind, lab, eatt, "_graph_indicator.txt" ) } );
  if( readLabels ) bad.push_back( { "labels-missing", store( a, ind, lab, eatt, "_graph_labels.txt" ) } );
  if( readAtt ) bad.push_back( { "node-attributes-missing", store( a, ind, lab, eatt, "_node_attributes.txt" ) } );
  if( readE ) bad.push_back( { "edge-attributes-missing", store( a, ind, lab, eatt, "_edge_attributes.txt" ) } );
  { auto i = ind; i[ c.rng.below( i.size() ) ] = junk( c.rng ); bad.push_back( { "indicator-not-a-number", store( a, i, lab, eatt, "" ) } ); }
  { int u = 0, v = 0; for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) if( g[ static_cast<std::size_t>( i ) ] != g[ static_cast<std::size_t>( j ) ] && ( u == 0 || c.rng.chance( 0.3 ) ) ) { u = i + 1; v = j + 1; }
    auto A = a; auto E = eatt; auto p = c.rng.below( A.size() + 1 ); A.insert( A.begin() + static_cast<long>( p ), std::to_string( u ) + ", " + std::to_string( v ) ); E.insert( E.begin() + static_cast<long>( p ), "1" ); bad.push_back( { "edge-across-graphs", store( A, ind, lab, E, "" ) } ); }
  { auto A = a; auto E = eatt; auto p = c.rng.below( A.size() + 1 ); A.insert( A.begin() + static_cast<long>( p ), c.rng.pick( Lines{ "1", "1, 2, 3" } ) ); E.insert( E.begin() + static_cast<long>( p ), "1" ); bad.push_back( { "line", store( A, ind, lab, E, "" ) } ); }
  { auto A = a; auto E = eatt; A.push_back( "1, " + std::to_string( n + c.rng.range( 1, 5 ) ) ); E.push_back( "1" ); bad.push_back( { "unknown-node", store( A, ind, lab, E, "" ) } ); }
  if( readLabels ) { auto L = lab; L.pop_back(); bad.push_back( { "too-few-labels", store( a, ind, L, eatt, "" ) } ); }
  if( readE && !eatt.empty() ) { auto E = eatt; E.pop_back(); bad.push_back( { "too-few-edge-attributes", store( a, ind, lab, E, "" ) } ); }
  auto read = make(); std::string fresh;
  try { fresh = make()( good ); } catch( const std::exception& e ) { c.fail( "consistent-rejected", e.what() ); }
  int steps = c.rng.range( 1, 3 );
  for( int i = 0; i < steps; i++ )
  {
    auto& p = c.rng.pick( bad ); c.desc << " " << p.first;
    c.throws( [&] { read( p.second ); }, p.first );
    try { c.eq( read( good ), fresh, "reused" ); } catch( const std::exception& e ) { c.fail( "consistent-rejected", e.what() ); }
  }
  for( int i = 0; i < count; i++ ) for( auto s : { "_A.txt", "_graph_indicator.txt", "_graph_labels.txt", "_node_labels.txt", "_node_attributes.txt", "_edge_attributes.txt" } ) std::remove( ( c.scratch + "/s" + std::to_string( c.k ) + "x" + std::to_string( i ) + s ).c_str() );
  c.nontrivial( combine( dig( a ), combine( dig( ind ), hashString( c.desc.str() ) ) ) );
}

SECTION( writers, 200, 4000 )
{
  K k; int n = c.rng.range( 2, 6 ); std::vector<S> s; for( int i = 0; i < n; i++ ) s.push_back( S( static_cast<unsigned>( i ), 1.0 ) ); for( int i = 0; i + 1 < n; i++ ) s.push_back( S( { static_cast<unsigned>( i ), static_cast<unsigned>( i + 1 ) }, 2.0 ) ); k = K( s.begin(), s.end() );
  auto d = 2 + c.rng.below( 2 ); aleph::containers::PointCloud<double> p( static_cast<std::size_t>( n ), d ), flat( static_cast<std::size_t>( n ), 1 );
  for( std::size_t i = 0; i < static_cast<std::size_t>( n ); i++ ) { std::vector<double> x( d, c.rng.real() ), y( 1, 1.0 ); p.set( i, x.begin(), x.end() ); flat.set( i, y.begin(), y.end() ); }
  aleph::PersistenceDiagram<double> D; D.add( 0, 1 );
  auto none = c.scratch + "/no-such-directory/out" + std::to_string( c.rng.below( 9 ) ), file = c.scratch + "/out.txt";
  auto dir = c.scratch;
  auto target = c.rng.chance( 0.5 ) ? none : dir;
  c.desc << n << " vertices " << d << " coordinates " << ( target == dir ? "directory" : "missing directory" );
  c.throws( [&] { io::GMLWriter w; w( target, k ); }, "gml-not-created", target );
  c.throws( [&] { io::LinesAndPoints w; w( target, k, p ); }, "lines-not-created", target );
  c.throws( [&] { io::TikZ w; w( target, k, p ); }, "tikz-not-created", target );
  c.throws( [&] { aleph::io::writeJSON( target, D, "x" ); }, "json-not-created", target );
  c.throws( [&] { io::LinesAndPoints w; std::ostringstream o; w( o, k, flat ); }, "lines-one-coordinate" );
  c.throws( [&] { io::TikZ w; std::ostringstream o; w( o, k, flat ); }, "tikz-one-coordinate" );
  try
  {
    { io::GMLWriter w; w( file, k ); } c.expect( !readFile( file ).empty(), "gml-empty" );
    { io::LinesAndPoints w; w( file, k, p ); } c.expect( !readFile( file ).empty(), "lines-empty" );
    { io::TikZ w; w( file, k, p ); } c.expect( !readFile( file ).empty(), "tikz-empty" );
    aleph::io::writeJSON( file, D, "x" ); c.expect( !readFile( file ).empty(), "json-empty" );
  }
  catch( const std::exception& e ) { c.fail( "valid-output-refused", e.what() ); }
  c.nontrivial( combine( dig( k.size() ), combine( d, hashString( target.substr( c.scratch.size() ) ) + c.k ) ) );
}
