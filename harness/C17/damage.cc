// Damaged input files. Well-formed files of every format are truncated, cut,
// duplicated, spliced and overwritten, and then handed to the readers. The
// sanitizers watch the readers and every operation on what they return.
#include "../C15/files.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>
#include <aleph/topology/representations/Vector.hh>

#include <H5Cpp.h>

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <sys/wait.h>
#include <unistd.h>

// Memory of a reader is bounded: a file may claim to contain any number of
// elements, and running out of memory has to be reported as an exception.
namespace
{

bool        limited = false;
std::size_t live    = 0;
const std::size_t limit = std::size_t( 200 ) << 20;

void* allocate( std::size_t n )
{
  if( limited && ( n > limit || live + n > limit ) ) throw std::bad_alloc();
  void* p = std::malloc( n ? n : 1 );
  if( !p ) throw std::bad_alloc();
  if( limited ) live += malloc_usable_size( p );
  return p;
}

void release( void* p ) noexcept
{
  if( p && limited ) { auto n = malloc_usable_size( p ); live = live > n ? live - n : 0; }
  std::free( p );
}

struct Limit { Limit() { live = 0; limited = true; } ~Limit() { limited = false; } };

} // namespace

void* operator new( std::size_t n ) { return allocate( n ); }
void* operator new[]( std::size_t n ) { return allocate( n ); }
void* operator new( std::size_t n, const std::nothrow_t& ) noexcept { try { return allocate( n ); } catch( ... ) { return nullptr; } }
void* operator new[]( std::size_t n, const std::nothrow_t& ) noexcept { try { return allocate( n ); } catch( ... ) { return nullptr; } }
void  operator delete( void* p, const std::nothrow_t& ) noexcept { release( p ); }
void  operator delete[]( void* p, const std::nothrow_t& ) noexcept { release( p ); }
void  operator delete( void* p ) noexcept { release( p ); }
void  operator delete[]( void* p ) noexcept { release( p ); }
void  operator delete( void* p, std::size_t ) noexcept { release( p ); }
void  operator delete[]( void* p, std::size_t ) noexcept { release( p ); }

using namespace vp;
using namespace aleph::topology;

namespace
{

// Well-formed files ----------------------------------------------------

std::string matrixFile( Rng& rng, int h, int w, bool comments = true )
{
  std::string s; for( int y = 0; y < h; y++ ) { if( comments ) s += noise( rng, { "#" } ); for( int x = 0; x < w; x++ ) s += ( x ? " " : "" ) + ( rng.chance( 0.1 ) ? std::string( "nan" ) : numberText( rng ) ); s += "\n"; } return s;
}

std::string edgesFile( Rng& rng )
{
  auto g = randomGraph( rng, 8 ); bool num = rng.chance( 0.5 ); std::string s = noise( rng, { "#", "%", "*" } );
  for( auto& e : g.edges ) { auto id = [&]( int i ) { return num ? std::to_string( i ) : std::string( 1, static_cast<char>( 'a' + i ) ); }; s += id( e.first ) + " " + id( e.second ) + ( rng.chance( 0.7 ) ? " " + numberText( rng ) : "" ) + "\n"; }
  return s;
}

std::string gmlFile( Rng& rng )
{
  auto g = randomGraph( rng, 6 ); std::string s = rng.chance( 0.3 ) ? "comment \"made by 3\"\n" : "";
  std::string nl = rng.chance( 0.2 ) ? " " : "\n";
  s += "graph [" + nl + "directed 0" + nl;
  for( int i = 0; i < g.n; i++ ) { s += "  node [" + nl + "    id " + std::to_string( i ) + nl; if( rng.chance( 0.5 ) ) s += "    label \"" + labelText( rng ) + "\"" + nl; if( rng.chance( 0.4 ) ) s += "    weight " + numberText( rng ) + nl; if( rng.chance( 0.2 ) ) s += "    graphics [" + nl + " x 1 " + nl + "]" + nl; s += "  ]" + nl; }
  for( auto& e : g.edges ) { s += "  edge [" + nl + "    source " + std::to_string( e.first ) + nl + "    target " + std::to_string( e.second ) + nl; if( rng.chance( 0.5 ) ) s += "    value " + numberText( rng ) + nl; s += "  ]" + nl; }
  return s + "]" + nl;
}

std::string graphmlFile( Rng& rng )
{
  auto g = randomGraph( rng, 6 );
  std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<graphml xmlns=\"http://graphml.graphdrawing.org/xmlns\">\n<key id=\"d0\" for=\"node\" attr.name=\"weight\" attr.type=\"double\"><default>1.5</default></key>\n<key id=\"d1\" for=\"edge\" attr.name=\"weight\" attr.type=\"double\"/>\n<graph id=\"G\" edgedefault=\"undirected\">\n";
  for( int i = 0; i < g.n; i++ ) s += "<node id=\"n" + std::to_string( i ) + "\">" + ( rng.chance( 0.5 ) ? "<data key=\"d0\">" + numberText( rng ) + "</data>" : std::string() ) + "</node>\n";
  bool ids = rng.chance( 0.9 ); int m = 0;
  for( auto& e : g.edges ) s += ( ids ? "<edge id=\"e" + std::to_string( m++ ) + "\" " : std::string( "<edge " ) ) + "source=\"n" + std::to_string( e.first ) + "\" target=\"n" + std::to_string( e.second ) + "\">" + ( rng.chance( 0.5 ) ? "<data key=\"d1\">" + numberText( rng ) + "</data>" : std::string() ) + "</edge>\n";
  return s + "</graph>\n</graphml>\n";
}

std::string pajekFile( Rng& rng )
{
  auto g = randomGraph( rng, 7 ); std::string s = "*vertices " + std::to_string( g.n ) + "\n"; auto label = rng.below( 8 );
  for( int i = 0; i < g.n; i++ ) s += std::to_string( i + 1 ) + ( label > 0 && ( label > 1 || rng.chance( 0.6 ) ) ? " \"" + labelText( rng ) + "\"" : std::string() ) + "\n";
  s += rng.chance( 0.5 ) ? "*edges\n" : "*arcs\n";
  for( auto& e : g.edges ) s += std::to_string( e.first + 1 ) + " " + std::to_string( e.second + 1 ) + ( rng.chance( 0.5 ) ? " " + numberText( rng ) : "" ) + "\n";
  return s;
}

std::string vtkFile( Rng& rng )
{
  int d[3]; for( auto& x : d ) x = rng.range( 1, 4 ); int n = d[0] * d[1] * d[2];
  std::string s = "# vtk DataFile Version 3.0\nVTK Output\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS " + std::to_string( d[0] ) + " " + std::to_string( d[1] ) + " " + std::to_string( d[2] ) + "\nPOINTS " + std::to_string( n ) + " float\n";
  for( int i = 0; i < n; i++ ) s += "0 1 2\n";
  s += "POINT_DATA " + std::to_string( n ) + "\nSCALARS f double 1\nLOOKUP_TABLE default\n";
  for( int i = 0; i < n; i++ ) s += numberText( rng ) + ( i % 3 == 2 ? "\n" : " " );
  return s + "\n";
}

std::string plyFile( Rng& rng )
{
  int n = rng.range( 3, 8 ), m = rng.range( 0, 6 ); auto kind = rng.below( 4 );
  std::string s = std::string( "ply\nformat " ) + ( kind == 0 ? "binary_little_endian" : kind == 1 ? "binary_big_endian" : "ascii" ) + " 1.0\ncomment x\nelement vertex " + std::to_string( n ) + "\nproperty float x\nproperty double y\nproperty float z\n" + ( rng.chance( 0.3 ) ? "property uchar quality\nproperty short q\n" : "" ) + "element face " + std::to_string( m ) + "\nproperty list uchar int vertex_indices\nend_header\n";
  for( int i = 0; i < n; i++ ) s += numberText( rng ) + " " + numberText( rng ) + " " + numberText( rng ) + " 3 4\n";
  for( int i = 0; i < m; i++ ) { int a = rng.range( 0, n - 1 ), b = ( a + 1 ) % n, e = ( a + 2 ) % n; s += "3 " + std::to_string( a ) + " " + std::to_string( b ) + " " + std::to_string( e ) + "\n"; }
  return s;
}

std::string lexFile( Rng& rng )
{
  std::string s = noise( rng, { "#" } ); int m = rng.range( 1, 3 );
  for( int i = 0; i < m; i++ ) { s += "m" + std::to_string( i ) + "=["; int q = rng.range( 1, 5 ); for( int j = 0; j < q; j++ ) { s += j ? "," : ""; if( rng.chance( 0.2 ) ) s += "\n"; s += "[" + std::to_string( rng.range( 1, 5 ) ) + "," + std::to_string( rng.range( 6, 9 ) ) + "," + std::to_string( rng.range( 10, 12 ) ) + "]"; } s += "]\n"; }
  return s;
}

std::string spectrumFile( Rng& rng )
{
  std::string s = "# header\nm/z int\n"; int n = rng.range( 0, 8 ); for( int i = 0; i < n; i++ ) s += std::to_string( 100 + i ) + "." + std::to_string( rng.range( 0, 9 ) ) + "\t" + numberText( rng ) + "\n"; return s;
}

std::string jsonFile( Rng& rng )
{
  std::string s = "{\n\"diagrams\": ["; int m = rng.range( 0, 3 );
  for( int i = 0; i < m; i++ ) { int q = rng.range( 0, 4 ); s += ( i ? "," : "" ) + std::string( "{\n  \"betti\": 1,\n  \"dimension\": 0,\n \"name\": \"x\",\n  \"size\": " ) + std::to_string( q + 1 ) + ",\n  \"diagram\": [\n[\"0\",\"inf\"]"; for( int j = 0; j < q; j++ ) s += ",\n    [\"" + numberText( rng ) + "\",\"" + numberText( rng ) + "\"]"; s += "\n]\n}"; }
  return s + "]\n}\n";
}

std::string boundaryFile( Rng& rng )
{
  std::string s = noise( rng, { "#" } ) + "0\n0\n0\n1 0 1\n1 0 2\n1 1 2\n2 3 4 5\n"; if( rng.chance( 0.5 ) ) s += "0\n1 0 7\n"; return s;
}

std::string stepFile( Rng& rng ) { std::string s; int n = rng.range( 0, 6 ), x = 0; for( int i = 0; i < n; i++ ) { s += std::to_string( x ) + "\t" + numberText( rng ) + "\n"; x += rng.range( 1, 3 ); } return s; }

// Damage ----------------------------------------------------------------

std::string extreme( Rng& rng )
{
  return rng.pick( std::vector<std::string>{ "-1", "0", "4294967296", "4294967295", "65536", "65535", "99999999999999999999", "18446744073709551615", "9223372036854775807", "1e999", "-1e999", "nan", "inf", "-inf", "", "1e10", "1.5", "x", "-", ".", "0x10", "1e", "--1", "+", "1000000", "2147483648", "255", "256" } );
}

std::string damage( Rng& rng, std::string s, const std::string& other )
{
  int n = rng.chance( 0.05 ) ? 0 : rng.range( 1, 5 );
  for( int i = 0; i < n; i++ )
  {
    auto N = s.size();
    auto pos = [&] { return N ? rng.below( N ) : 0; };
    auto line = [&]( std::size_t p ) { auto a = p == 0 ? std::string::npos : s.rfind( '\n', p - 1 ); auto b = s.find( '\n', p ); std::size_t from = a == std::string::npos ? 0 : a + 1, to = b == std::string::npos ? N : b + 1; return std::make_pair( from, to > from ? to - from : 0 ); };
    switch( rng.below( 15 ) )
    {
      case 0: s = s.substr( 0, pos() ); break;
      case 1: s = s.substr( pos() ); break;
      case 2: if( N ) s.erase( pos(), static_cast<std::size_t>( rng.range( 1, 12 ) ) ); break;
      case 3: if( N ) { auto p = pos(); auto t = s.substr( p, static_cast<std::size_t>( rng.range( 1, 40 ) ) ); s.insert( pos(), t ); } break;
      case 4: if( N ) s[ pos() ] = static_cast<char>( rng.below( 256 ) ); break;
      case 5: if( N ) s[ pos() ] = rng.pick( std::vector<char>{ ' ', '\n', '\0', '[', ']', '"', '=', ',', '#', '*', '-', '{', '}', '<', '>', '/', '0', '9', '.', '\t', '\r', '\xff' } ); break;
      case 6: if( N ) s.insert( pos(), 1, rng.pick( std::vector<char>{ ' ', '\n', '\0', '[', ']', '"', '=', ',', '#', '*', '-', '{', '}', '<', '>', '/', '0', '9', '.', '\t', '\r', '\xff' } ) ); break;
      case 7: if( N ) { auto l = line( pos() ); s.erase( l.first, l.second ); } break;
      case 8: if( N ) { auto l = line( pos() ); auto t = s.substr( l.first, l.second ); auto m = line( pos() ); s.insert( m.first, t ); } break;
      case 9: if( N ) { auto l = line( pos() ); auto t = s.substr( l.first, l.second ); s.erase( l.first, l.second ); N = s.size(); auto m = line( pos() ); s.insert( m.first, t ); } break;
      case 10: case 11: case 12: if( N )   // a number
      {
        auto p = s.find_first_of( "0123456789", pos() ); if( p == std::string::npos ) break;
        auto q = s.find_first_not_of( "0123456789.eE+-", p ); if( q == std::string::npos ) q = N;
        s.replace( p, q - p, rng.chance( 0.5 ) ? std::to_string( rng.range( 0, 12 ) ) : extreme( rng ) );
      } break;
      case 13: if( !other.empty() ) { auto p = rng.below( other.size() ); s.insert( pos(), other.substr( p, static_cast<std::size_t>( rng.range( 1, 60 ) ) ) ); } break;
      default: if( N ) { auto p = pos(); auto q = s.find_first_of( " \n\t\"[],", p ); s.erase( p, ( q == std::string::npos ? N : q ) - p ); }
    }
    if( s.size() > 6000 ) s.resize( 6000 );
  }
  if( rng.chance( 0.01 ) ) { s.clear(); int m = rng.range( 0, 80 ); for( int i = 0; i < m; i++ ) s += static_cast<char>( rng.below( 256 ) ); }
  return s;
}

// Use of the result -----------------------------------------------------

std::size_t used = 0; // keeps the queries from being optimised away

template <class K> void useComplex( Ctx& c, K& k, bool closed, const std::string& file )
{
  using S = typename K::ValueType;
  std::size_t n = 0, maxDim = 0;
  std::set<VSet> seen;
  for( auto&& s : k )
  {
    ++n; used += s.size() + static_cast<std::size_t>( s.data() != s.data() );
    if( !s.empty() ) maxDim = std::max( maxDim, s.dimension() );
    seen.insert( vset( s ) );
    for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it ) used += k.contains( *it );
    used += k.contains( s ) + ( k.find( s ) != k.end() );
  }
  c.eq( n, k.size(), "size" );
  c.eq( seen.size(), n, "duplicates", file );
  if( n ) used += k.dimension();
  std::vector<typename S::VertexType> v; k.vertices( std::back_inserter( v ) ); used += v.size();
  for( std::size_t i = 0; i < std::min<std::size_t>( n, 20 ); i++ ) { auto s = k.at( i ); c.eq( k.index( s ), i, "index", file ); }
  if( closed )
  {
    VSet bad; for( auto& s : seen ) if( s.size() > 1 ) for( auto& f : facesOf( s ) ) if( !seen.count( f ) ) bad = f;
    c.expect( bad.empty(), "closed", "missing face " + str( bad ) + " in\n" + file );
  }
  bool comparable = true; for( auto&& s : k ) if( s.data() != s.data() ) comparable = false;
  if( comparable ) { k.sort( filtrations::Data<S>() ); c.eq( k.size(), n, "sort" ); }
  if( maxDim <= 4 && n < 3000 ) { k.createMissingFaces(); if( closed ) c.eq( k.size(), n, "missing-faces" ); k.recalculateWeights(); }
  if( comparable && n < 300 && maxDim <= 4 ) { k.sort( filtrations::Data<S>() ); used += aleph::calculatePersistenceDiagrams( k ).size(); }
}

template <class F> bool guarded( Ctx& c, F&& f )
{
  bool returned = false;
  try { Limit l; f(); returned = true; } catch( const std::exception& e ) { c.desc << " exception " << e.what(); ++c.checks_; }
  if( returned ) c.desc << " accepted";
  return returned;
}

template <class F> void damaged( Ctx& c, const std::string& ext, F&& generate, const std::function<void( const std::string& )>& read )
{
  static const std::vector<std::string (*)( Rng& )> others = { edgesFile, gmlFile, graphmlFile, pajekFile, vtkFile, plyFile, lexFile, jsonFile };
  auto s = c.rng.chance( 0.03 ) ? c.rng.pick( others )( c.rng ) : generate( c.rng );
  std::string other = c.rng.chance( 0.2 ) ? c.rng.pick( others )( c.rng ) : generate( c.rng );
  auto t = damage( c.rng, s, other );
  auto file = c.scratch + "/d" + ext; writeFile( file, t );
  c.desc << t.size() << " bytes:";
  read( file );
  if( t != s ) c.nontrivial( dig( t ) );
}

using S1 = Simplex<double,unsigned>;       using K1 = SimplicialComplex<S1>;
using S2 = Simplex<float,unsigned short>;  using K2 = SimplicialComplex<S2>;

// Reads the file into complexes of two types
template <class Reader> void both( Ctx& c, const std::string& file, bool closed, Reader&& reader )
{
  auto t = readFile( file );
  { K1 k; if( guarded( c, [&] { reader( file, k ); } ) ) useComplex( c, k, closed, t ); }
  if( c.rng.chance( 0.3 ) ) { K2 k; if( guarded( c, [&] { reader( file, k ); } ) ) useComplex( c, k, closed, t ); }
}

struct Adjacency { Rng& rng; template <class K> void operator()( const std::string& f, K& k ) { io::AdjacencyMatrixReader r; r.setIgnoreNaNs( rng.chance( 0.5 ) ); r.setIgnoreZeroWeights( rng.chance( 0.5 ) ); r( f, k ); } };
struct Bipartite { Rng& rng; template <class K> void operator()( const std::string& f, K& k ) { io::BipartiteAdjacencyMatrixReader r; r.setAssignMinimumVertexWeight( rng.chance( 0.5 ) ); r.setAssignMinimumAbsoluteVertexWeight( rng.chance( 0.5 ) ); r( f, k ); } };
struct Edges { Rng& rng; template <class K> void operator()( const std::string& f, K& k ) { io::EdgeListReader r; r.setReadWeights( rng.chance( 0.5 ) ); r.setTrimLines( rng.chance( 0.5 ) ); r( f, k ); } };
struct Gml { template <class K> void operator()( const std::string& f, K& k ) { io::GMLReader r; r( f, k ); used += r.getNodeAttribute( "label" ).size() + r.getNodeAttribute( "weight" ).size(); } };
struct Graphml { template <class K> void operator()( const std::string& f, K& k ) { io::GraphMLReader r; r( f, k ); } };
struct Pajek { template <class K> void operator()( const std::string& f, K& k ) { io::PajekReader r; r( f, k ); used += r.getLabelMap().size(); } };
struct Vtk { template <class K> void operator()( const std::string& f, K& k ) { io::VTKStructuredGridReader r; r( f, k ); used += r.scalarsName().size(); } };
struct Ply { Rng& rng; template <class K> void operator()( const std::string& f, K& k ) { io::PLYReader r; if( rng.chance( 0.5 ) ) r.setDataProperty( rng.pick( std::vector<std::string>{ "x", "quality", "q", "", "vertex_indices" } ) ); r( f, k ); } };
struct Matrix { template <class K> void operator()( const std::string& f, K& k ) { io::MatrixReader r; r( f, k ); used += r.width() + r.height(); } };
struct Spectrum { Rng& rng; template <class K> void operator()( const std::string& f, K& k ) { io::FlexSpectrumReader r; r.normalize( rng.chance( 0.5 ) ); r( f, k ); used += r.getIndexToIntensityMap().size(); } };
struct Any { Rng& rng; template <class K> void operator()( const std::string& f, K& k ) { io::SimplicialComplexReader r; if( rng.chance( 0.3 ) ) r.setLabelAttribute( "id" ); if( rng.chance( 0.3 ) ) r.setDataAttribute( "quality" ); r( f, k ); used += r.labels().size(); } };

} // namespace

SECTION( adjacency, 2400, 40000 )   { damaged( c, ".txt", []( Rng& r ) { int n = r.range( 1, 6 ); return matrixFile( r, n, n ); }, [&]( const std::string& f ) { both( c, f, true, Adjacency{ c.rng } ); } ); }
SECTION( bipartite, 2000, 40000 )   { damaged( c, ".txt", []( Rng& r ) { return matrixFile( r, r.range( 1, 6 ), r.range( 1, 6 ) ); }, [&]( const std::string& f ) { both( c, f, true, Bipartite{ c.rng } ); } ); }
SECTION( edges, 2400, 40000 )       { damaged( c, ".txt", edgesFile, [&]( const std::string& f ) { both( c, f, true, Edges{ c.rng } ); } ); }
SECTION( gml, 2400, 40000 )         { damaged( c, ".gml", gmlFile, [&]( const std::string& f ) { both( c, f, true, Gml{} ); } ); }
SECTION( graphml, 2400, 40000 )     { damaged( c, ".graphml", graphmlFile, [&]( const std::string& f ) { both( c, f, true, Graphml{} ); } ); }
SECTION( pajek, 2400, 40000 )       { damaged( c, ".net", pajekFile, [&]( const std::string& f ) { both( c, f, true, Pajek{} ); } ); }
SECTION( vtk, 2000, 30000 )         { damaged( c, ".vtk", vtkFile, [&]( const std::string& f ) { both( c, f, true, Vtk{} ); } ); }
SECTION( ply, 2400, 40000 )         { damaged( c, ".ply", plyFile, [&]( const std::string& f ) { both( c, f, true, Ply{ c.rng } ); } ); }
SECTION( matrix, 2000, 30000 )      { damaged( c, ".txt", []( Rng& r ) { return matrixFile( r, r.range( 1, 6 ), r.range( 1, 6 ) ); }, [&]( const std::string& f ) { both( c, f, true, Matrix{} ); } ); }
SECTION( spectrum, 2000, 30000 )    { damaged( c, ".txt", spectrumFile, [&]( const std::string& f ) { both( c, f, true, Spectrum{ c.rng } ); } ); }

SECTION( generic, 2400, 40000 )
{
  auto k = c.rng.below( 6 );
  static const std::vector<std::string> ext = { ".gml", ".net", ".ply", ".vtk", ".txt", ".GML" };
  static const std::vector<std::string (*)( Rng& )> gen = { gmlFile, pajekFile, plyFile, vtkFile, edgesFile, gmlFile };
  damaged( c, ext[ k ], gen[ k ], [&]( const std::string& f ) { both( c, f, true, Any{ c.rng } ); } );
}

SECTION( lexicographic, 2400, 40000 )
{
  damaged( c, ".txt", lexFile, [&]( const std::string& f )
  {
    std::vector<K1> ks; if( !guarded( c, [&] { io::LexicographicTriangulationReader r; r( f, ks ); } ) ) return;
    for( auto& k : ks ) useComplex( c, k, false, readFile( f ) );
  } );
}

SECTION( functions, 2000, 30000 )
{
  damaged( c, ".txt", []( Rng& r ) { return matrixFile( r, r.range( 1, 4 ), r.range( 1, 8 ), false ); }, [&]( const std::string& f )
  {
    std::vector<K1> ks; if( guarded( c, [&] { ks = io::loadFunctions<K1>( f ); } ) ) for( auto& k : ks ) useComplex( c, k, true, readFile( f ) );
    aleph::topology::BoundaryMatrix<representations::Vector<unsigned>> M; std::vector<double> v;
    if( guarded( c, [&] { io::loadFunction( f, M, v ); } ) ) for( unsigned j = 0; j < M.getNumColumns(); j++ ) for( auto i : M.getColumn( j ) ) c.expect( i < j, "column" );
  } );
}

SECTION( sparse, 2000, 30000 )
{
  // Several files belong together; each of them may be damaged
  int n = c.rng.range( 1, 7 ), graphs = c.rng.range( 1, 3 );
  std::string A, indicator, labels, nodes, attr; int m = 0;
  for( int i = 1; i <= n; i++ ) { indicator += std::to_string( std::min( graphs, 1 + ( i - 1 ) * graphs / n ) ) + "\n"; nodes += std::to_string( i % 3 ) + "\n"; }
  for( int i = 1; i < n; i++ ) if( c.rng.chance( 0.7 ) ) { A += std::to_string( i ) + ", " + std::to_string( i + 1 ) + "\n"; ++m; attr += numberText( c.rng ) + "\n"; }
  for( int i = 0; i < graphs; i++ ) labels += std::to_string( i % 2 ) + "\n";
  std::vector<std::string*> parts = { &A, &indicator, &labels, &nodes, &attr };
  int hits = c.rng.range( 1, 2 ); for( int i = 0; i < hits; i++ ) { auto p = parts[ c.rng.below( c.rng.chance( 0.6 ) ? 2 : 5 ) ]; *p = damage( c.rng, *p, indicator ); }
  auto base = c.scratch + "/g";
  writeFile( base + "_A.txt", A ); writeFile( base + "_graph_indicator.txt", indicator ); writeFile( base + "_graph_labels.txt", labels ); writeFile( base + "_node_labels.txt", nodes ); writeFile( base + "_edge_attributes.txt", attr );
  std::vector<K1> ks;
  if( guarded( c, [&] { io::SparseAdjacencyMatrixReader r; r.setReadGraphLabels( c.rng.chance( 0.5 ) ); r.setReadNodeLabels( c.rng.chance( 0.5 ) ); r.setReadEdgeAttributes( c.rng.chance( 0.5 ) ); r( base + "_A.txt", ks ); } ) )
    for( auto& k : ks ) useComplex( c, k, true, A + "--\n" + indicator );
  c.nontrivial( combine( dig( A ), combine( dig( indicator ), dig( attr ) ) ) );
}

SECTION( hdf5, 400, 3000 )
{
  // The contents of the file are unsuitable rather than corrupt, apart from truncation
  auto file = c.scratch + "/d.h5"; std::string kind;
  {
    H5::H5File out( file, H5F_ACC_TRUNC );
    hsize_t dims[4]; int rank = c.rng.range( 0, 4 ); for( auto& d : dims ) d = static_cast<hsize_t>( c.rng.range( 0, 4 ) );
    H5::DataSpace space = rank == 0 ? H5::DataSpace( H5S_SCALAR ) : H5::DataSpace( rank, dims );
    H5::PredType types[] = { H5::PredType::NATIVE_DOUBLE, H5::PredType::NATIVE_FLOAT, H5::PredType::NATIVE_INT, H5::PredType::STD_I64BE, H5::PredType::C_S1, H5::PredType::NATIVE_LDOUBLE };
    auto t = c.rng.below( 6 );
    auto name = c.rng.pick( std::vector<std::string>{ "YField", "YField", "yfield" } );
    if( c.rng.chance( 0.1 ) ) out.createGroup( "/" + name ); else out.createDataSet( name, types[ t ], space );
    kind = name + " type " + std::to_string( t ) + " rank " + std::to_string( rank );
  }
  if( c.rng.chance( 0.3 ) ) { auto s = readFile( file ); s.resize( c.rng.below( s.size() + 1 ) ); writeFile( file, s ); kind += " truncated to " + std::to_string( s.size() ); }
  io::HDF5SimpleDataSpaceReader r; if( c.rng.chance( 0.2 ) ) r.setGroupName( c.rng.pick( std::vector<std::string>{ "/missing", "", "/YField" } ) );
  K1 k; if( guarded( c, [&] { r( file, k ); } ) ) useComplex( c, k, true, kind );
  c.desc << " " << kind; c.nontrivial( combine( dig( kind ), dig( r.groupName() ) ) );
}

SECTION( json, 2400, 40000 )
{
  damaged( c, ".json", jsonFile, [&]( const std::string& f )
  {
    std::vector<aleph::PersistenceDiagram<double>> D;
    if( guarded( c, [&] { D = aleph::io::readJSON<double>( f ); } ) ) for( auto& d : D ) { used += d.betti() + d.dimension(); for( auto&& p : d ) used += p.isUnpaired(); }
  } );
}

SECTION( diagram, 2000, 30000 )
{
  damaged( c, ".txt", []( Rng& r ) { return noise( r, { "#" } ) + matrixFile( r, r.range( 1, 8 ), 2 ); }, [&]( const std::string& f )
  {
    aleph::PersistenceDiagram<double> d; if( guarded( c, [&] { d = aleph::io::load<double>( f ); } ) ) { used += d.betti(); for( auto&& p : d ) used += p.isUnpaired(); }
    aleph::PersistenceDiagram<float> e; guarded( c, [&] { e = aleph::io::load<float>( f ); } );
  } );
}

SECTION( pointcloud, 2000, 30000 )
{
  damaged( c, ".txt", []( Rng& r ) { return matrixFile( r, r.range( 1, 8 ), r.range( 1, 4 ) ); }, [&]( const std::string& f )
  {
    aleph::containers::PointCloud<double> p; if( !guarded( c, [&] { p = aleph::containers::load<double>( f ); } ) ) return;
    for( std::size_t i = 0; i < p.size(); i++ ) c.eq( p[i].size(), p.dimension(), "dimension" );
  } );
}

SECTION( boundary, 2000, 30000 )
{
  damaged( c, ".txt", boundaryFile, [&]( const std::string& f )
  {
    using M = BoundaryMatrix<representations::Vector<unsigned>>;
    M m; if( !guarded( c, [&] { m = M::load( f ); } ) ) return;
    bool faces = true;
    for( unsigned j = 0; j < m.getNumColumns(); j++ ) { used += m.getDimension( j ); for( auto i : m.getColumn( j ) ) { c.expect( i < m.getNumColumns(), "column" ); faces = faces && i < j; } }
    // the default algorithm presumes that the boundary of a boundary vanishes
    if( faces ) used += static_cast<std::size_t>( aleph::calculatePersistencePairing<aleph::persistentHomology::algorithms::Standard>( m ).size() );
  } );
}

// Files with extremely long lines. The reader runs in a child process because
// exhausting the stack cannot be caught.
namespace
{

template <class F> void survives( Ctx& c, const std::string& key, F&& f )
{
  std::fflush( nullptr );
  pid_t pid = fork();
  if( pid < 0 ) throw Skip();
  if( pid == 0 )
  {
    int null = open( "/dev/null", O_WRONLY ); if( null >= 0 ) { dup2( null, 1 ); dup2( null, 2 ); }
    alarm( 60 );
    try { f(); } catch( const std::exception& ) {} catch( ... ) { _exit( 3 ); }
    _exit( 0 );
  }
  int status = 0; while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  if( WIFSIGNALED( status ) && ( WTERMSIG( status ) == SIGALRM || WTERMSIG( status ) == SIGKILL ) ) throw Skip();
  c.expect( WIFEXITED( status ) && WEXITSTATUS( status ) == 0, key, "status " + std::to_string( status ) );
}

} // namespace

SECTION( longlines, 96, 192 )
{
  static const std::vector<std::string> formats = { "adjacency", "bipartite", "edges", "gml", "pajek", "ply", "vtk", "matrix", "lexicographic", "spectrum", "functions", "diagram", "pointcloud", "boundary", "json", "graphml" };
  auto format = formats[ c.k % formats.size() ]; auto kind = ( c.k / formats.size() ) % 6;
  std::size_t L = 65000; static const char* kinds[] = { "token", "blanks", "numbers", "digits", "list", "quoted" };
  std::string s;
  if( format == "gml" ) s = "graph [\n"; else if( format == "pajek" ) s = "*vertices 2\n";
  else if( format == "ply" ) s = "ply\nformat ascii 1.0\nelement vertex 1\nproperty float x\nproperty float y\nproperty float z\nend_header\n";
  else if( format == "vtk" ) s = "# vtk DataFile Version 3.0\nt\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS 1 1 1\nPOINTS 1 float\n0 0 0\n";
  else if( format == "lexicographic" ) s = "a=[";
  switch( kind )
  {
    case 0: s += std::string( L, 'x' ); break;
    case 1: s += "1" + std::string( L, ' ' ) + "2"; break;
    case 2: for( std::size_t i = 0; i < L / 2; i++ ) s += "1 "; break;
    case 3: s += std::string( L, '1' ); break;
    case 4: for( std::size_t i = 0; i < L / 6; i++ ) s += "[1,2],"; break;
    default: s += "label \"" + std::string( L, 'y' ) + "\"";
  }
  s += "\n";
  auto file = c.scratch + "/long" + ( format == "json" ? ".json" : ".txt" ); writeFile( file, s );
  survives( c, format + "-" + kinds[kind], [&]
  {
    K1 k;
    if( format == "adjacency" ) { io::AdjacencyMatrixReader r; r( file, k ); }
    else if( format == "bipartite" ) { io::BipartiteAdjacencyMatrixReader r; r( file, k ); }
    else if( format == "edges" ) { io::EdgeListReader r; r( file, k ); }
    else if( format == "gml" ) { io::GMLReader r; r( file, k ); }
    else if( format == "pajek" ) { io::PajekReader r; r( file, k ); }
    else if( format == "ply" ) { io::PLYReader r; r( file, k ); }
    else if( format == "vtk" ) { io::VTKStructuredGridReader r; r( file, k ); }
    else if( format == "matrix" ) { io::MatrixReader r; r( file, k ); }
    else if( format == "lexicographic" ) { std::vector<K1> ks; io::LexicographicTriangulationReader r; r( file, ks ); }
    else if( format == "spectrum" ) { io::FlexSpectrumReader r; r( file, k ); }
    else if( format == "functions" ) io::loadFunctions<K1>( file );
    else if( format == "diagram" ) aleph::io::load<double>( file );
    else if( format == "pointcloud" ) aleph::containers::load<double>( file );
    else if( format == "boundary" ) BoundaryMatrix<representations::Vector<unsigned>>::load( file );
    else if( format == "json" ) aleph::io::readJSON<double>( file );
    else { io::GraphMLReader r; r( file, k ); }
  } );
  c.desc << format << " line of kind " << kind << " with " << s.size() << " characters"; c.nontrivial( combine( dig( s ), dig( format ) ) );
}
