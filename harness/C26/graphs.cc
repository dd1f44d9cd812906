// Graphs, meshes, readers and writers
#include "c26.hh"

#include <aleph/geometry/HeatKernel.hh>
#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/CombinatorialCurvature.hh>
#include <aleph/topology/FloydWarshall.hh>
#include <aleph/topology/MaximalCliques.hh>
#include <aleph/topology/Mesh.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/Degree.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/TikZ.hh>

using namespace c26;
using namespace aleph::topology;

namespace
{

using S = Simplex<double,unsigned>; using K = SimplicialComplex<S>;

K graph( Ctx& c, std::string& w ) { unsigned n = unsigned( c.rng.range( 3, 9 ) ); std::vector<S> s; for( unsigned i = 0; i < n; i++ ) s.push_back( S( i ) ); for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < i; j++ ) if( j + 1 == i || c.rng.chance( 0.5 ) ) s.push_back( S( { j, i }, c.rng.real( 0.1, 2 ) ) ); K k( s.begin(), s.end() ); w = show( k ); c.desc << w; c.nontrivial( hashString( w ) ); return k; }
template <class X> std::string entries( const X& m ) { std::ostringstream o; o.precision( 17 ); o << m; return o.str(); }

SECTION( graph, 400, 3600 )
{
  std::string w; const K k = graph( c, w ); aleph::geometry::HeatKernel hk0( k ); auto& hk = hk0; Ops o;
  o.add( "adjacency", [&]{ return entries( aleph::geometry::weightedAdjacencyMatrix( k ) ); } ); o.add( "laplacian", [&]{ return entries( aleph::geometry::weightedLaplacianMatrix( k ) ); } ); o.add( "pseudo-inverse", [&]{ return entries( aleph::geometry::pinvWeightedLaplacianMatrix( k ) ); } );
  const auto& ck = hk; o.add( "trace", [&]{ return std::vector<double>{ double( ck.trace( 0.5 ) ), double( ck.determinant( 0.5 ) ), double( ck.skip() ) }; } ); o.add( "sampling", [&]{ auto v = ck.logarithmicSamplingInterval( 5 ); return std::vector<double>( v.begin(), v.end() ); } );
  o.add( "kernel", [&]{ aleph::geometry::HeatKernel h( k ); return std::vector<double>{ double( h( 0, 0.5 ) ), double( h( 0, 1, 0.5 ) ) }; } );
  o.add( "cliques", [&]{ std::set<std::string> r; for( auto& q : maximalCliquesKoch( k ) ) r.insert( show( q ) ); for( auto& q : maximalCliquesBronKerbosch( k ) ) r.insert( "b" + show( q ) ); return r; } ); o.add( "clique-graph", [&]{ return getCliqueGraph( k, 1 ); } );
  o.add( "shortest-paths", [&]{ auto m = floydWarshall( k, 1.0 ); std::vector<double> v; for( unsigned i = 0; i < m.numRows(); i++ ) for( unsigned j = 0; j < m.numRows(); j++ ) v.push_back( m( i, j ) ); return v; } );
  o.add( "curvature", [&]{ std::vector<double> v; curvature( k, std::back_inserter( v ) ); return v; } ); o.add( "degrees", [&]{ std::vector<unsigned> v; filtrations::degrees( k, std::back_inserter( v ) ); return v; } );
  o.add( "gml", [&]{ std::ostringstream s; io::GMLWriter x; x( s, const_cast<K&>( k ) ); return s.str(); } );
  concurrently( c, o, w );
}

SECTION( mesh, 500, 4000 )
{
  using M = Mesh<double,double>; M m0; unsigned a = unsigned( c.rng.range( 2, 4 ) ), b = unsigned( c.rng.range( 2, 4 ) ); std::uint64_t h = a * 10 + b; for( unsigned i = 0; i < a * b; i++ ) { double d = c.rng.real(); h = combine( h, hashDouble( d ) ); m0.addVertex( i % a, i / a, 0, d, i ); } for( unsigned y = 0; y + 1 < b; y++ ) for( unsigned x = 0; x + 1 < a; x++ ) { unsigned p = y * a + x; std::vector<unsigned> f { p, p + 1, p + a }, g { p + 1, p + a + 1, p + a }; m0.addFace( f.begin(), f.end() ); m0.addFace( g.begin(), g.end() ); } const M& m = m0; Ops o; c.desc << "grid " << a << " x " << b; c.nontrivial( h );
  o.add( "counts", [&]{ return std::vector<std::size_t>{ m.numVertices(), m.numFaces(), m.numConnectedComponents() }; } ); o.add( "faces", [&]{ return m.faces(); } ); o.add( "vertices", [&]{ return m.vertices(); } );
  o.add( "links", [&]{ std::string r; for( unsigned i = 0; i < a * b; i++ ) r += show( m.link( i ) ) + show( m.getLowerNeighbours( i ) ) + show( m.getHigherNeighbours( i ) ) + show( m.data( i ) ); return r; } ); o.add( "stars", [&]{ std::string r; for( unsigned i = 0; i < a * b; i++ ) r += show( m.star( i ).faces() ); return r; } ); o.add( "edges", [&]{ std::string r; for( unsigned i = 0; i < a * b; i++ ) for( unsigned j = 0; j < a * b; j++ ) r += m.hasEdge( i, j ) ? "+" : "-"; return r; } );
  concurrently( c, o, "grid" );
}

SECTION( files, 300, 2400 )
{
  // The same file read by several threads, each with a reader of its own
  std::string w; const K k = graph( c, w ); std::string gml, edges, adj, ply, pajek; { std::ostringstream s; s << "graph [\n"; for( auto&& x : k ) if( x.dimension() == 0 ) s << "node [ id " << *x.begin() << " label \"n" << *x.begin() << "\" ]\n"; for( auto&& x : k ) if( x.dimension() == 1 ) s << "edge [ source " << *x.begin() << " target " << *x.rbegin() << " weight " << x.data() << " ]\n"; s << "]\n"; gml = s.str(); } { std::ostringstream s; for( auto&& x : k ) if( x.dimension() == 1 ) s << *x.begin() << " " << *x.rbegin() << " " << x.data() << "\n"; edges = s.str(); }
  { std::ostringstream s; s << "*Vertices " << 9 << "\n*Edges\n"; for( auto&& x : k ) if( x.dimension() == 1 ) s << *x.begin() + 1 << " " << *x.rbegin() + 1 << " " << x.data() << "\n"; pajek = s.str(); } ply = "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_index\nend_header\n0 0 0\n1 0 0\n0 1 0.5\n3 0 1 2\n";
  std::string base = c.scratch + "/shared"; writeFile( base + ".gml", gml ); writeFile( base + ".txt", edges ); writeFile( base + ".net", pajek ); writeFile( base + ".ply", ply ); Ops o;
  for( std::string e : { ".gml", ".txt", ".net", ".ply" } ) o.add( "read" + e, [e,base]{ K l; io::SimplicialComplexReader r; r( base + e, l ); return l; } );
  concurrently( c, o, w );
}

} // namespace
