// GML, GraphML, Pajek, sparse adjacency matrices and the generic reader
#include "files.hh"

#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>

#include <sys/stat.h>
#include <unistd.h>

using namespace vp;
using namespace aleph::topology;

namespace
{

using Attr = std::map<std::string,std::string>;

// A graph file together with its meaning
struct Model
{
  Graph g;
  std::vector<std::string> id, label;             // per node; empty label: none
  std::vector<int> vertex;                        // vertex identifier in the complex
  std::vector<Attr> nodeAttr, edgeAttr;
  std::string text;
};

std::size_t U( int i ) { return static_cast<std::size_t>( i ); }

void chooseIds( Rng& rng, Model& m, bool numeric )
{
  std::set<std::string> used; m.id.clear();
  int offset = rng.range( 0, 20 ), step = rng.range( 1, 9 );
  for( int i = 0; i < m.g.n; i++ )
  {
    std::string s;
    do
    {
      if( numeric ) s = std::to_string( offset + step * i );
      else { s = word( rng ); auto k = rng.below( 4 ); if( k == 0 ) s += std::to_string( rng.range( 0, 30 ) ); else if( k == 1 ) s = std::to_string( rng.range( 1, 9 ) ) + s; }
    } while( used.count( s ) );
    used.insert( s ); m.id.push_back( s );
  }
  rng.shuffle( m.id );
  std::set<std::string> sorted( m.id.begin(), m.id.end() );
  m.vertex.clear();
  for( auto& s : m.id ) m.vertex.push_back( numeric ? std::stoi( s ) : static_cast<int>( std::distance( sorted.begin(), sorted.find( s ) ) ) );
}

// Some files use the line ends of another system
void lineEnds( Rng& rng, std::string& t )
{
  if( !rng.chance( 0.1 ) ) return;
  std::string r; for( char x : t ) { if( x == '\n' ) r += '\r'; r += x; } t = r;
}

const std::vector<std::string> extraNames = { "color", "x1", "my_key", "size", "weight2", "idx", "label2", "source3", "zeta" };

Model gmlModel( Rng& rng, int maxN )
{
  Model m; m.g = randomGraph( rng, maxN );
  bool numeric = rng.chance( 0.5 );
  chooseIds( rng, m, numeric );
  auto attrs = [&]( bool node )
  {
    Attr a;
    if( rng.chance( 0.5 ) ) a[ "weight" ] = numberText( rng );
    if( rng.chance( 0.3 ) ) a[ "value" ] = numberText( rng );
    if( node && rng.chance( 0.5 ) ) a[ "label" ] = labelText( rng );
    while( rng.chance( 0.4 ) ) a[ rng.pick( extraNames ) ] = rng.chance( 0.5 ) ? word( rng ) : numberText( rng );
    return a;
  };
  auto& t = m.text;
  auto sp = [&] { return blanks( rng, 0, 4 ); };
  auto gap = [&] { return noise( rng, { "comment", "Creator", "#" } ); };
  auto open = [&]( const std::string& level ) { t += sp() + level; if( rng.chance( 0.5 ) ) t += " ["; else t += "\n" + gap() + sp() + "["; t += "\n"; };
  auto close = [&] { t += sp() + "]\n"; };
  auto line = [&]( const std::string& k, const std::string& v, bool quoted ) { t += gap() + sp() + k + blanks( rng, 1, 3 ) + ( quoted ? "\"" + v + "\"" : v ) + sp() + "\n"; };

  t = gap(); open( "graph" );
  if( rng.chance( 0.4 ) ) line( "directed", rng.chance( 0.5 ) ? "0" : "1", false );
  if( rng.chance( 0.2 ) ) line( "id", "42", false );
  if( rng.chance( 0.2 ) ) line( "label", "whole graph", true );
  std::vector<int> nodes( U( m.g.n ) ), edges( m.g.edges.size() );
  std::iota( nodes.begin(), nodes.end(), 0 ); std::iota( edges.begin(), edges.end(), 0 );
  m.nodeAttr.resize( nodes.size() ); m.edgeAttr.resize( edges.size() );
  auto body = [&]( std::vector<std::vector<std::string>> lines, const Attr& a )
  {
    for( auto& kv : a ) lines.push_back( { kv.first, kv.second, kv.first == "label" ? "q" : "" } );
    rng.shuffle( lines );
    for( auto& l : lines ) line( l[0], l[1], !l[2].empty() );
  };
  rng.shuffle( nodes );
  bool edgesFirst = rng.chance( 0.15 );
  auto writeEdges = [&] { for( auto i : edges ) { auto& a = m.edgeAttr[ U( i ) ]; a = attrs( false ); open( "edge" ); body( { { "source", m.id[ U( m.g.edges[ U( i ) ].first ) ], "" }, { "target", m.id[ U( m.g.edges[ U( i ) ].second ) ], "" } }, a ); close(); t += gap(); } };
  if( edgesFirst ) writeEdges();
  for( auto i : nodes ) { auto& a = m.nodeAttr[ U( i ) ]; a = attrs( true ); open( "node" ); body( { { "id", m.id[ U( i ) ], "" } }, a ); close(); t += gap(); }
  if( !edgesFirst ) writeEdges();
  close(); t += gap(); lineEnds( rng, t );
  m.label.resize( nodes.size() );
  for( std::size_t i = 0; i < m.label.size(); i++ ) if( m.nodeAttr[i].count( "label" ) ) m.label[i] = m.nodeAttr[i][ "label" ];
  return m;
}

template <class T, class F> std::map<VSet,double> gmlExpected( const Model& m, F f )
{
  std::map<VSet,double> E; std::vector<T> w( U( m.g.n ) );
  auto weight = []( const Attr& a, T& x ) { for( auto k : { "weight", "value" } ) { auto it = a.find( k ); if( it != a.end() ) { x = parseAs( it->second, T() ); return true; } } return false; };
  for( int i = 0; i < m.g.n; i++ ) { weight( m.nodeAttr[ U( i ) ], w[ U( i ) ] ); E[ VSet{ m.vertex[ U( i ) ] } ] = w[ U( i ) ]; }
  for( std::size_t i = 0; i < m.g.edges.size(); i++ )
  {
    auto e = m.g.edges[i]; T x = f( w[ U( e.first ) ], w[ U( e.second ) ] ); weight( m.edgeAttr[i], x );
    int u = m.vertex[ U( e.first ) ], v = m.vertex[ U( e.second ) ];
    E[ VSet{ std::min( u, v ), std::max( u, v ) } ] = x;
  }
  return E;
}

template <class T> T maxFunctor( T a, T b ) { return std::max( a, b ); }
template <class T> T sumFunctor( T a, T b ) { return a + b + 1; }

// Labels in the order of the vertices of the complex
std::vector<std::string> orderedLabels( const Model& m )
{
  std::map<int,std::string> r; for( std::size_t i = 0; i < m.id.size(); i++ ) r[ m.vertex[i] ] = m.label[i];
  std::vector<std::string> v; for( auto& kv : r ) v.push_back( kv.second ); return v;
}

template <class V, class R> void gmlAttributes( Ctx& c, const Model& m, R& reader )
{
  std::set<std::string> names;
  for( auto& a : m.nodeAttr ) for( auto& kv : a ) names.insert( kv.first );
  auto got = reader.getNodeAttributeNames();
  c.expect( std::set<std::string>( got.begin(), got.end() ) == names && got.size() == names.size(), "node-attribute-names", str( got ) + " expected " + str( names ) + "\n" + m.text );
  for( auto& k : names )
  {
    std::map<std::string,std::string> e; for( std::size_t i = 0; i < m.id.size(); i++ ) e[ m.id[i] ] = m.nodeAttr[i].count( k ) ? m.nodeAttr[i].at( k ) : "";
    c.expect( reader.getNodeAttribute( k ) == e, "node-attribute", k + "\n" + m.text );
  }
  std::set<std::string> enames; for( auto& a : m.edgeAttr ) for( auto& kv : a ) enames.insert( kv.first );
  got = reader.getEdgeAttributeNames();
  c.expect( std::set<std::string>( got.begin(), got.end() ) == enames && got.size() == enames.size(), "edge-attribute-names", str( got ) + " expected " + str( enames ) + "\n" + m.text );
  for( std::size_t i = 0; i < m.edgeAttr.size(); i++ ) for( auto& k : enames )
    c.eq( reader.getEdgeAttribute( m.id[ U( m.g.edges[i].first ) ], m.id[ U( m.g.edges[i].second ) ], k ), m.edgeAttr[i].count( k ) ? m.edgeAttr[i].at( k ) : std::string(), "edge-attribute", k );
  // indices are a numbering of the nodes that follows the vertex order
  auto index = reader.template id_to_index<V>();
  std::map<int,std::string> order; for( std::size_t i = 0; i < m.id.size(); i++ ) order[ m.vertex[i] ] = m.id[i];
  c.eq( index.size(), order.size(), "index-size" );
  V k = 0; for( auto& kv : order ) { c.expect( index.count( kv.second ) && index[ kv.second ] == k, "index", kv.second + " in\n" + m.text ); k++; }
}

template <class T, class V> void gml( Ctx& c )
{
  using K = SimplicialComplex<Simplex<T,V>>;
  io::GMLReader reader; std::uint64_t h = 11; int rounds = c.rng.range( 1, 3 );
  for( int r = 0; r < rounds; r++ )
  {
    auto m = gmlModel( c.rng, c.rng.chance( 0.2 ) ? 25 : 8 );
    auto file = c.scratch + "/g.gml"; writeFile( file, m.text ); h = combine( h, dig( m.text ) );
    K k; auto way = c.rng.below( 4 );
    if( way == 0 ) reader( file, k );
    else if( way == 1 ) reader( file, k, sumFunctor<T> );
    else { std::ifstream in( file ); if( way == 2 ) reader( in, k ); else reader( in, k, sumFunctor<T> ); }
    compareGraph( c, k, way % 2 ? gmlExpected<T>( m, sumFunctor<T> ) : gmlExpected<T>( m, maxFunctor<T> ), "graph", m.text );
    gmlAttributes<V>( c, m, reader );
  }
  c.desc << rounds << " GML files"; c.nontrivial( h );
}

// GraphML ---------------------------------------------------------------

std::string xmlEscape( const std::string& s )
{
  std::string r; for( char ch : s ) { if( ch == '&' ) r += "&amp;"; else if( ch == '<' ) r += "&lt;"; else if( ch == '>' ) r += "&gt;"; else if( ch == '"' ) r += "&quot;"; else r += ch; } return r;
}

template <class T, class V> void graphml( Ctx& c )
{
  using K = SimplicialComplex<Simplex<T,V>>;
  io::GraphMLReader reader; std::uint64_t h = 12; int rounds = c.rng.range( 1, 3 );
  auto& rng = c.rng;
  for( int r = 0; r < rounds; r++ )
  {
    Model m; m.g = randomGraph( rng, 12 ); chooseIds( rng, m, rng.chance( 0.5 ) );
    std::set<std::string> sorted( m.id.begin(), m.id.end() );
    for( std::size_t i = 0; i < m.id.size(); i++ ) m.vertex[i] = static_cast<int>( std::distance( sorted.begin(), sorted.find( m.id[i] ) ) );

    bool sameNames = rng.chance( 0.4 );
    std::string nodeName = rng.chance( 0.7 ) ? "weight" : "height", edgeName = rng.chance( 0.7 ) ? "weight" : "length";
    bool nodeKey = rng.chance( 0.7 ), edgeKey = rng.chance( 0.7 );
    std::string nodeId = sameNames ? nodeName : "d0", edgeId = sameNames ? edgeName + ( edgeName == nodeName ? "" : "" ) : "d1";
    bool declaration = rng.chance( 0.7 ), full = rng.chance( 0.6 );

    auto& t = m.text;
    if( declaration ) t += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    if( rng.chance( 0.4 ) ) t += "<!-- a comment -->\n";
    t += "<graphml>\n";
    bool colour = rng.chance( 0.4 );
    std::vector<std::string> keys;
    if( nodeKey ) keys.push_back( "<key id=\"" + nodeId + "\" for=\"node\" attr.name=\"" + nodeName + "\" attr.type=\"double\"/>\n" );
    if( edgeKey ) keys.push_back( "<key id=\"" + edgeId + "\" for=\"edge\" attr.name=\"" + edgeName + "\" attr.type=\"double\"/>\n" );
    if( colour ) keys.push_back( "<key id=\"color\" for=\"node\" attr.name=\"color\" attr.type=\"string\"><default>red</default></key>\n" );
    rng.shuffle( keys ); for( auto& k : keys ) t += k;
    t += std::string( "<graph id=\"G\"" ) + ( rng.chance( 0.7 ) ? rng.chance( 0.5 ) ? " edgedefault=\"undirected\"" : " edgedefault=\"directed\"" : "" ) + ">\n";
    std::vector<std::string> parts; std::vector<T> nw( U( m.g.n ) ), ew( m.g.edges.size() );
    std::set<std::string> nodeNames, edgeNames;
    for( int i = 0; i < m.g.n; i++ )
    {
      std::string s = "<node id=\"" + xmlEscape( m.id[ U( i ) ] ) + "\"", inner;
      if( nodeKey && ( full || rng.chance( 0.6 ) ) ) { auto x = numberText( rng ); nw[ U( i ) ] = parseAs( x, T() ); inner += "<data key=\"" + nodeId + "\">" + x + "</data>"; nodeNames.insert( nodeId ); }
      if( colour && rng.chance( 0.5 ) ) { inner += rng.chance( 0.3 ) ? "<data key=\"color\"/>" : "<data key=\"color\">" + word( rng ) + "</data>"; nodeNames.insert( "color" ); }
      if( rng.chance( 0.1 ) ) inner += "<port name=\"p\"/>";
      parts.push_back( s + ( inner.empty() ? "/>\n" : ">" + inner + "</node>\n" ) );
    }
    for( std::size_t i = 0; i < m.g.edges.size(); i++ )
    {
      auto e = m.g.edges[i]; std::string inner;
      if( edgeKey && rng.chance( 0.7 ) ) { auto x = numberText( rng ); ew[i] = parseAs( x, T() ); inner += "<data key=\"" + edgeId + "\">" + x + "</data>"; edgeNames.insert( edgeId ); }
      parts.push_back( "<edge id=\"e" + std::to_string( i ) + "\" source=\"" + m.id[ U( e.first ) ] + "\" target=\"" + m.id[ U( e.second ) ] + "\"" + ( inner.empty() ? "/>\n" : ">" + inner + "</edge>\n" ) );
    }
    if( rng.chance( 0.3 ) ) rng.shuffle( parts );
    for( auto& p : parts ) { t += p; if( rng.chance( 0.1 ) ) t += "<!-- x -->\n"; if( rng.chance( 0.05 ) ) t += "<desc>nothing</desc>\n"; }
    t += "</graph>\n</graphml>\n";

    bool readNodes = rng.chance( 0.7 ), readEdges = rng.chance( 0.6 ), functor = rng.chance( 0.5 );
    std::string na = rng.chance( 0.85 ) ? nodeName : "other", ea = rng.chance( 0.85 ) ? edgeName : "other";
    // A new reader has documented defaults that need not be set
    auto set = [&]( bool isDefault ) { return r > 0 || !isDefault || rng.chance( 0.5 ); };
    if( set( readNodes ) ) reader.setReadNodeWeights( readNodes );
    if( set( readEdges ) ) reader.setReadEdgeWeights( readEdges );
    if( set( na == "weight" ) ) reader.setNodeWeightAttribute( na );
    if( set( ea == "weight" ) ) reader.setEdgeWeightAttribute( ea );
    c.expect( reader.readNodeWeights() == readNodes && reader.readEdgeWeights() == readEdges && reader.nodeWeightAttribute() == na && reader.edgeWeightAttribute() == ea, "option" );

    std::map<VSet,double> E; std::vector<T> w( U( m.g.n ) );
    bool haveNode = readNodes && nodeKey && na == nodeName;
    for( int i = 0; i < m.g.n; i++ ) { if( haveNode ) w[ U( i ) ] = nw[ U( i ) ]; E[ VSet{ m.vertex[ U( i ) ] } ] = w[ U( i ) ]; }
    for( std::size_t i = 0; i < m.g.edges.size(); i++ )
    {
      auto e = m.g.edges[i]; T x = T();
      if( readEdges ) { if( edgeKey && ea == edgeName ) x = ew[i]; }
      else if( haveNode ) x = functor ? sumFunctor<T>( w[ U( e.first ) ], w[ U( e.second ) ] ) : maxFunctor<T>( w[ U( e.first ) ], w[ U( e.second ) ] );
      int a = m.vertex[ U( e.first ) ], b = m.vertex[ U( e.second ) ]; E[ VSet{ std::min( a, b ), std::max( a, b ) } ] = x;
    }
    auto file = c.scratch + "/g.xml"; writeFile( file, t ); h = combine( h, dig( t ) );
    K k; if( functor ) reader( file, k, sumFunctor<T> ); else reader( file, k );
    compareGraph( c, k, E, "graph", t );
    if( sameNames )
    {
      auto got = reader.getNodeAttributeNames(); c.expect( std::set<std::string>( got.begin(), got.end() ) == nodeNames, "node-attribute-names", str( got ) + "\n" + t );
      got = reader.getEdgeAttributeNames(); c.expect( std::set<std::string>( got.begin(), got.end() ) == edgeNames, "edge-attribute-names", str( got ) + "\n" + t );
    }
    auto index = reader.template id_to_index<V>(); c.eq( index.size(), m.id.size(), "index-size" );
    for( std::size_t i = 0; i < m.id.size(); i++ ) c.expect( index.count( m.id[i] ) && static_cast<int>( index[ m.id[i] ] ) == m.vertex[i], "index", m.id[i] );
  }
  c.desc << rounds << " GraphML files"; c.nontrivial( h );
}

// Pajek -----------------------------------------------------------------

Model pajekModel( Rng& rng, int maxN )
{
  Model m; m.g = randomGraph( rng, maxN ); bool labels = rng.chance( 0.6 );
  auto gap = [&] { return noise( rng, { "%" } ); };
  auto& t = m.text; t = gap();
  auto sp = [&] { return blanks( rng, 0, 2 ); };
  int step = labels && rng.chance( 0.2 ) ? 3 : 1;
  for( int i = 0; i < m.g.n; i++ ) { m.vertex.push_back( 1 + i * step ); m.id.push_back( std::to_string( 1 + i * step ) ); m.label.push_back( labels ? labelText( rng ) : "" ); }
  t += sp() + rng.pick( std::vector<std::string>{ "*Vertices", "*vertices", "*VERTICES", "*Verts" } ) + blanks( rng, 1, 3 ) + std::to_string( m.g.n ) + sp() + "\n" + gap();
  if( labels )
  {
    std::vector<int> o( U( m.g.n ) ); std::iota( o.begin(), o.end(), 0 ); if( rng.chance( 0.4 ) ) rng.shuffle( o );
    for( auto i : o ) t += sp() + m.id[ U( i ) ] + blanks( rng, 1, 3 ) + "\"" + m.label[ U( i ) ] + "\"" + sp() + "\n" + gap();
  }
  std::size_t cut = m.g.edges.size(); if( rng.chance( 0.3 ) ) cut = rng.below( cut + 1 );
  m.edgeAttr.resize( m.g.edges.size() );
  for( std::size_t i = 0; i <= m.g.edges.size(); i++ )
  {
    if( i == 0 && ( !m.g.edges.empty() || rng.chance( 0.5 ) ) ) t += rng.pick( std::vector<std::string>{ "*Edges", "*edges", "*Arcs", "*arcs", "*EDGES" } ) + "\n" + gap();
    else if( i == cut && i < m.g.edges.size() ) t += rng.pick( std::vector<std::string>{ "*Edges", "*Arcs" } ) + "\n" + gap();
    if( i == m.g.edges.size() ) break;
    auto e = m.g.edges[i];
    t += sp() + m.id[ U( e.first ) ] + blanks( rng, 1, 3 ) + m.id[ U( e.second ) ];
    if( rng.chance( 0.6 ) ) { auto x = numberText( rng ); t += blanks( rng, 1, 3 ) + x; m.edgeAttr[i][ "weight" ] = x; }
    t += sp() + "\n" + gap();
  }
  lineEnds( rng, t );
  return m;
}

template <class T> std::map<VSet,double> pajekExpected( const Model& m )
{
  std::map<VSet,double> E; for( auto v : m.vertex ) E[ VSet{ v } ] = 0;
  for( std::size_t i = 0; i < m.g.edges.size(); i++ )
  {
    int u = m.vertex[ U( m.g.edges[i].first ) ], v = m.vertex[ U( m.g.edges[i].second ) ];
    E[ VSet{ std::min( u, v ), std::max( u, v ) } ] = m.edgeAttr[i].count( "weight" ) ? parseAs( m.edgeAttr[i].at( "weight" ), T() ) : T();
  }
  return E;
}

template <class T, class V> void pajek( Ctx& c )
{
  using K = SimplicialComplex<Simplex<T,V>>;
  io::PajekReader reader; std::uint64_t h = 13; int rounds = c.rng.range( 1, 3 );
  for( int r = 0; r < rounds; r++ )
  {
    auto m = pajekModel( c.rng, 14 ); auto file = c.scratch + "/g.net"; writeFile( file, m.text ); h = combine( h, dig( m.text ) );
    K k; if( c.rng.chance( 0.5 ) ) reader( file, k ); else { std::ifstream in( file ); reader( in, k ); }
    compareGraph( c, k, pajekExpected<T>( m ), "graph", m.text );
    std::map<std::string,std::string> L; for( std::size_t i = 0; i < m.id.size(); i++ ) if( !m.label[i].empty() ) L[ m.id[i] ] = m.label[i];
    c.expect( reader.getLabelMap() == L, "labels", m.text );
  }
  c.desc << rounds << " Pajek files"; c.nontrivial( h );
}

// Sparse adjacency matrices -----------------------------------------------

template <class T, class V> void sparse( Ctx& c )
{
  using K = SimplicialComplex<Simplex<T,V>>;
  auto& rng = c.rng; io::SparseAdjacencyMatrixReader reader; std::uint64_t h = 14; int rounds = rng.range( 1, 3 );
  for( int r = 0; r < rounds; r++ )
  {
    auto prefix = c.scratch + "/S" + std::to_string( r ) + ( rng.chance( 0.5 ) ? "_x" : "" );
    int graphs = rng.range( 1, 5 ); int node = 1;
    bool readGraphLabels = rng.chance( 0.7 ), readNodeLabels = rng.chance( 0.5 ), readNodeAttr = rng.chance( 0.5 ), readEdgeAttr = rng.chance( 0.5 );
    bool haveNodeLabels = rng.chance( 0.6 );
    auto sep = rng.pick( std::vector<std::string>{ ",", ",", ";", ":" } );
    std::size_t na = 1 + rng.below( 3 ), ea = 1 + rng.below( 3 );
    std::size_t ni = rng.below( na ), ei = rng.below( ea );
    bool useNode = rng.chance( 0.8 ), useEdge = rng.chance( 0.8 );
    std::string A, I, GL, NL, NA, EA; std::vector<std::string> graphLabels, nodeLabels;
    std::vector<std::map<VSet,double>> E( U( graphs ) );
    std::vector<std::pair<int,int>> edges; std::vector<int> owner;
    auto pad = [&] { return rng.chance( 0.3 ) ? std::string( " " ) : std::string(); };
    for( int g = 0; g < graphs; g++ )
    {
      auto G = randomGraph( rng, 7 ); auto label = rng.chance( 0.5 ) ? word( rng ) : std::to_string( rng.range( -1, 5 ) );
      GL += pad() + label + pad() + "\n"; graphLabels.push_back( label );
      for( int i = 0; i < G.n; i++ )
      {
        I += pad() + std::to_string( g + 1 ) + pad() + "\n"; auto l = word( rng ); NL += l + pad() + "\n"; nodeLabels.push_back( l );
        double w = 0;
        for( std::size_t a = 0; a < na; a++ ) { auto x = numberText( rng ); NA += ( a ? sep + pad() : "" ) + x; if( a == ni && readNodeAttr && useNode ) w = static_cast<T>( std::strtod( x.c_str(), nullptr ) ); }
        NA += "\n"; E[ U( g ) ][ VSet{ node + i } ] = w;
      }
      for( auto e : G.edges ) { edges.push_back( { node + e.first, node + e.second } ); owner.push_back( g ); }
      node += G.n;
    }
    std::vector<std::size_t> o( edges.size() ); std::iota( o.begin(), o.end(), 0 ); if( rng.chance( 0.5 ) ) rng.shuffle( o );
    bool both = rng.chance( 0.5 );
    for( auto i : o ) for( int d = 0; d < ( both ? 2 : 1 ); d++ )
    {
      auto e = edges[i]; if( d ) std::swap( e.first, e.second );
      A += std::to_string( e.first ) + sep + pad() + std::to_string( e.second ) + "\n";
      VSet key{ std::min( e.first, e.second ), std::max( e.first, e.second ) }; double w = 0;
      for( std::size_t a = 0; a < ea; a++ ) { auto x = numberText( rng ); EA += ( a ? sep + pad() : "" ) + x; if( a == ei && readEdgeAttr && useEdge ) w = static_cast<T>( std::strtod( x.c_str(), nullptr ) ); }
      EA += "\n"; auto& W = E[ U( owner[i] ) ]; if( !W.count( key ) ) W[ key ] = w; // first direction counts
    }
    writeFile( prefix + "_A.txt", A ); writeFile( prefix + "_graph_indicator.txt", I );
    if( readGraphLabels || rng.chance( 0.5 ) ) writeFile( prefix + "_graph_labels.txt", GL );
    if( haveNodeLabels ) writeFile( prefix + "_node_labels.txt", NL );
    if( readNodeAttr ) writeFile( prefix + "_node_attributes.txt", NA );
    if( readEdgeAttr ) writeFile( prefix + "_edge_attributes.txt", EA );
    h = combine( h, dig( A + I + GL ) );

    auto set = [&]( bool isDefault ) { return r > 0 || !isDefault || rng.chance( 0.5 ); };
    if( set( readGraphLabels ) ) reader.setReadGraphLabels( readGraphLabels );
    if( set( !readNodeLabels ) ) reader.setReadNodeLabels( readNodeLabels );
    if( set( !readNodeAttr ) ) reader.setReadNodeAttributes( readNodeAttr );
    if( set( !readEdgeAttr ) ) reader.setReadEdgeAttributes( readEdgeAttr );
    if( set( sep == "," ) ) reader.setSeparator( sep );
    auto none = std::numeric_limits<std::size_t>::max();
    if( set( !useNode ) ) reader.setNodeAttributeIndex( useNode ? ni : none );
    if( set( !useEdge ) ) reader.setEdgeAttributeIndex( useEdge ? ei : none );
    c.expect( reader.readGraphLabels() == readGraphLabels && reader.readNodeLabels() == readNodeLabels && reader.readNodeAttributes() == readNodeAttr && reader.readEdgeAttributes() == readEdgeAttr && reader.separator() == sep
      && reader.nodeAttributeIndex() == ( useNode ? ni : none ) && reader.edgeAttributeIndex() == ( useEdge ? ei : none ), "option" );
    std::vector<K> ks( rng.below( 3 ) );
    reader( prefix + "_A.txt", ks );
    for( auto f : { "_A", "_graph_indicator", "_graph_labels", "_node_labels", "_node_attributes", "_edge_attributes" } ) ::unlink( ( prefix + f + ".txt" ).c_str() );

    c.eq( ks.size(), E.size(), "graphs" );
    for( std::size_t i = 0; i < std::min( ks.size(), E.size() ); i++ )
    {
      compareGraph( c, ks[i], E[i], "graph", A + "--\n" + I );
      std::vector<double> w; for( auto&& s : ks[i] ) w.push_back( s.data() ); c.expect( std::is_sorted( w.begin(), w.end() ), "order", str( w ) );
    }
    std::vector<std::string> gl, nl; reader.graphLabels( std::back_inserter( gl ) ); reader.nodeLabels( std::back_inserter( nl ) );
    c.expect( gl == ( readGraphLabels ? graphLabels : std::vector<std::string>() ), "graph-labels", str( gl ) + " expected " + str( graphLabels ) );
    c.expect( nl == ( readNodeLabels && haveNodeLabels ? nodeLabels : std::vector<std::string>() ), "node-labels", str( nl ) + " expected " + str( nodeLabels ) );
  }
  c.desc << rounds << " sets of graphs"; c.nontrivial( h );
}

// The generic reader chooses the format by the extension
template <class T, class V> void generic( Ctx& c )
{
  using K = SimplicialComplex<Simplex<T,V>>;
  io::SimplicialComplexReader reader; std::string attribute = "label"; std::uint64_t h = 15; int rounds = c.rng.range( 1, 4 );
  for( int r = 0; r < rounds; r++ )
  {
    K k; auto kind = c.rng.below( 3 ); bool functor = c.rng.chance( 0.5 );
    if( c.rng.chance( 0.3 ) ) { attribute = c.rng.pick( std::vector<std::string>{ "label", "weight", "value", "missing" } ); reader.setLabelAttribute( attribute ); }
    c.eq( reader.labelAttribute(), attribute, "option" );
    auto run = [&]( const std::string& file ) { if( functor ) reader( file, k, sumFunctor<T> ); else reader( file, k ); };
    if( kind == 0 )
    {
      auto m = gmlModel( c.rng, c.rng.chance( 0.3 ) ? 25 : 8 ); auto file = c.scratch + "/g.gml"; writeFile( file, m.text ); h = combine( h, dig( m.text ) ); run( file );
      compareGraph( c, k, functor ? gmlExpected<T>( m, sumFunctor<T> ) : gmlExpected<T>( m, maxFunctor<T> ), "gml", m.text );
      for( std::size_t i = 0; i < m.label.size(); i++ ) m.label[i] = m.nodeAttr[i].count( attribute ) ? m.nodeAttr[i].at( attribute ) : std::string();
      c.expect( reader.labels() == orderedLabels( m ), "gml-labels", str( reader.labels() ) + " expected " + str( orderedLabels( m ) ) + "\n" + m.text );
    }
    else if( kind == 1 )
    {
      auto m = pajekModel( c.rng, 14 ); auto file = c.scratch + "/g.net"; writeFile( file, m.text ); h = combine( h, dig( m.text ) ); run( file );
      compareGraph( c, k, pajekExpected<T>( m ), "pajek", m.text );
      std::vector<std::string> L; for( auto& l : m.label ) if( !l.empty() ) L.push_back( l );
      c.expect( reader.labels() == L, "pajek-labels", str( reader.labels() ) + " expected " + str( L ) + "\n" + m.text );
    }
    else
    {
      auto g = randomGraph( c.rng, 9 ); std::string t; std::map<VSet,double> E;
      for( auto e : g.edges ) { auto x = numberText( c.rng ); t += std::to_string( e.first ) + " " + std::to_string( e.second ) + " " + x + "\n"; E[ VSet{ e.first } ] = 0; E[ VSet{ e.second } ] = 0; E[ VSet{ std::min( e.first, e.second ), std::max( e.first, e.second ) } ] = parseAs( x, T() ); }
      auto file = c.scratch + "/g" + c.rng.pick( std::vector<std::string>{ ".txt", ".edges", "" } ); writeFile( file, t ); h = combine( h, dig( t ) ); run( file );
      compareGraph( c, k, E, "edges", t ); c.expect( reader.labels().empty(), "edges-labels", str( reader.labels() ) );
    }
  }
  c.desc << rounds << " files of different formats"; c.nontrivial( h );
}

} // namespace

#define TYPES( f ) switch( c.k % 4 ) { case 0: f<double,unsigned>( c ); break; case 1: f<double,unsigned short>( c ); break; case 2: f<float,unsigned>( c ); break; default: f<float,unsigned short>( c ); }

SECTION( gml, 2000, 20000 )     { TYPES( gml ) }
SECTION( graphml, 2000, 20000 ) { TYPES( graphml ) }
SECTION( pajek, 2000, 20000 )   { TYPES( pajek ) }
SECTION( sparse, 1600, 16000 )  { TYPES( sparse ) }
SECTION( generic, 1600, 16000 ) { TYPES( generic ) }
