// What is written can be read back; drawings contain every simplex once.
#include "../C15/files.hh"
#include "../dgm.hh"
#include "../points.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/math/StepFunction.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/TikZ.hh>

#include <regex>

using namespace vp;
using namespace aleph::topology;

namespace
{

// Weights of every magnitude; precision is a matter of the stream
template <class T> double value( Rng& rng )
{
  double x = 0;
  switch( rng.below( 6 ) )
  {
    case 0: x = rng.range( -9, 9 ); break;
    case 1: x = rng.real( -1, 1 ); break;
    case 2: x = rng.real( -1, 1 ) * std::pow( 10.0, rng.range( -12, 12 ) ); break;
    case 3: x = rng.range( -1000000, 1000000 ); break;
    case 4: x = 0; break;
    default: x = rng.real( 0, 1000 );
  }
  return static_cast<double>( static_cast<T>( x ) );
}

bool agree( double a, double b, double tol )
{
  if( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
  if( std::isinf( a ) || std::isinf( b ) ) return a == b;
  return std::fabs( a - b ) <= tol * std::max( std::fabs( a ), std::fabs( b ) );
}

template <class T, class V> void gml( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  CxOptions o; o.maxVertices = c.thorough ? 14 : 9; o.maxDim = 3; o.maxId = 60000;
  bool labels = c.rng.chance( 0.5 ); if( labels ) o.maxId = 200;
  auto A = randomComplex( c.rng, o );
  // labels are counted from one
  if( labels ) for( auto& s : A.s ) for( auto& v : s ) ++v;
  bool fin = c.rng.chance( 0.9 );
  for( auto& w : A.w ) w = !fin && c.rng.chance( 0.3 ) ? ( c.rng.chance( 0.5 ) ? INF : -INF ) : value<T>( c.rng );
  auto k = toComplex<S>( A );

  io::GMLWriter writer; bool vertexData = c.rng.chance( 0.5 );
  if( vertexData ) writer.writeSimplexDataForVertices();
  std::vector<std::string> names;
  if( labels ) { unsigned top = 0; for( auto& s : A.s ) for( auto v : s ) top = std::max( top, v ); for( unsigned i = 1; i <= top; i++ ) names.push_back( labelText( c.rng ) ); writer.setNodeLabels( names.begin(), names.end() ); }
  auto file = c.scratch + "/k.gml";
  if( c.rng.chance( 0.5 ) ) writer( file, k ); else { std::ofstream out( file ); writer( out, k ); }
  if( c.rng.chance( 0.2 ) ) writer( file, k ); // overwrites the file

  K l; io::GMLReader reader; reader( file, l );
  auto text = readFile( file );
  std::map<VSet,double> E; for( std::size_t i = 0; i < A.size(); i++ ) if( A.s[i].size() <= 2 ) E[ A.s[i] ] = A.w[i];
  auto R = weightsOf( l );
  bool same = R.size() == E.size() && l.size() == R.size();
  for( auto& kv : E ) same = same && R.count( kv.first );
  c.expectf( same, "gml-simplices", [&]( std::ostream& s ) { s << vp::text( R ) << " expected " << vp::text( E ) << "\n" << text; } );
  if( same ) for( auto& kv : E ) if( kv.first.size() == 2 )
    c.expectf( agree( R[ kv.first ], kv.second, 1e-5 ), "gml-weight", [&]( std::ostream& s ) { s << str( kv.first ) << " " << R[ kv.first ] << " expected " << kv.second << "\n" << text; } );
  auto data = reader.getNodeAttribute( "data" ), label = reader.getNodeAttribute( "label" );
  for( auto& kv : E ) if( kv.first.size() == 1 )
  {
    auto id = std::to_string( kv.first[0] );
    if( vertexData ) c.expectf( data.count( id ) && agree( std::strtod( data[id].c_str(), nullptr ), kv.second, 1e-5 ), "gml-data", [&]( std::ostream& s ) { s << id << "\n" << text; } );
    if( labels ) c.expectf( label.count( id ) && label[id] == names[ kv.first[0] - 1 ], "gml-label", [&]( std::ostream& s ) { s << id << " label " << label[id] << " expected " << names[ kv.first[0] - 1 ] << "\n" << text; } );
  }
  c.desc << A.text( 10 );
  if( A.size() > 1 ) c.nontrivial( combine( A.digest(), dig( text ) ) );
}

template <class T> void diagrams( Ctx& c )
{
  using D = aleph::PersistenceDiagram<T>;
  int m = c.rng.range( 1, 4 ); std::vector<D> ds; std::uint64_t h = 11;
  bool exact = c.rng.chance( 0.5 ); int precision = exact ? std::numeric_limits<T>::max_digits10 : 6; double tol = exact ? 0 : 1.01e-5;
  for( int i = 0; i < m; i++ )
  {
    D d; int n = c.rng.chance( 0.1 ) ? 0 : c.rng.range( 1, c.thorough ? 40 : 15 );
    for( int j = 0; j < n; j++ )
    {
      auto x = static_cast<T>( value<T>( c.rng ) ), y = static_cast<T>( value<T>( c.rng ) );
      if( j && c.rng.chance( 0.2 ) ) { x = d.begin()->x(); }
      if( c.rng.chance( 0.2 ) ) d.add( x ); else if( c.rng.chance( 0.05 ) ) d.add( -std::numeric_limits<T>::infinity(), y ); else d.add( x, y );
    }
    d.setDimension( static_cast<std::size_t>( c.rng.range( 0, 5 ) ) );
    ds.push_back( d ); for( auto&& p : d ) h = combine( h, combine( dig( p.x() ), dig( p.y() ) ) );
  }
  auto compare = [&]( const D& a, const D& b, const std::string& key, const std::string& text )
  {
    bool ok = a.size() == b.size();
    if( ok ) { auto i = a.begin(); auto j = b.begin(); for( ; i != a.end(); ++i, ++j ) ok = ok && agree( i->x(), j->x(), tol ) && agree( i->y(), j->y(), tol ) && i->isUnpaired() == j->isUnpaired(); }
    c.expectf( ok, key, [&]( std::ostream& o ) { o << a << "expected\n" << b << "file\n" << text; } );
    c.eq( a.betti(), b.betti(), key + "-betti", text );
  };

  // plain text
  for( auto& d : ds )
  {
    auto file = c.scratch + "/d.txt";
    std::ostringstream o; o.precision( precision );
    if( c.rng.chance( 0.3 ) ) o << "# a comment\n\n";
    o << d; if( c.rng.chance( 0.2 ) ) o << "\n# end\n";
    writeFile( file, o.str() );
    compare( aleph::io::load<T>( file ), d, "text", o.str() );
  }

  // one diagram as JSON
  auto strange = [&] { return c.rng.pick( std::vector<std::string>{ "x", "a b", "with \"quotes\"", "back\\slash", "new\nline", "tab\t", "carriage\rreturn", "{[,]}", "\xc3\xa4" } ); };
  {
    auto& d = ds[0]; auto file = c.scratch + "/d.json"; std::string name = c.rng.chance( 0.5 ) ? strange() : std::string();
    if( c.rng.chance( 0.3 ) && !exact ) aleph::io::writeJSON( file, d, name );
    else { std::ofstream o( file ); o.precision( precision ); if( c.rng.chance( 0.5 ) ) aleph::io::writeJSON( o, d, name ); else aleph::io::writeJSON( o, d, name, { { "key", strange() }, { "other", "2" } } ); }
    auto r = aleph::io::readJSON<T>( file );
    c.eq( r.size(), 1u, "json-number", readFile( file ) );
    if( r.size() == 1 ) { compare( r[0], d, "json-single", readFile( file ) ); c.eq( r[0].dimension(), d.dimension(), "json-dimension" ); }
  }
  // several diagrams
  {
    std::ostringstream o; o.precision( precision ); o << "{\n\"diagrams\": [\n";
    for( std::size_t i = 0; i < ds.size(); i++ ) { if( i ) o << ",\n"; aleph::io::writeJSON( o, ds[i], c.rng.chance( 0.5 ) ? strange() : std::string() ); }
    o << "\n]\n}\n";
    std::istringstream in( o.str() );
    auto r = aleph::io::readJSON<T>( in );
    c.eq( r.size(), ds.size(), "json-number", o.str() );
    for( std::size_t i = 0; i < std::min( r.size(), ds.size() ); i++ ) { compare( r[i], ds[i], "json", o.str() ); c.eq( r[i].dimension(), ds[i].dimension(), "json-dimension" ); }
  }
  c.desc << m << " diagrams, precision " << precision; c.nontrivial( h );
}

template <class T> void clouds( Ctx& c )
{
  using P = aleph::containers::PointCloud<T>;
  auto n = static_cast<std::size_t>( c.rng.range( 1, 20 ) ), d = static_cast<std::size_t>( c.rng.range( 1, 6 ) );
  bool exact = c.rng.chance( 0.5 ); int precision = exact ? std::numeric_limits<T>::max_digits10 : 6; double tol = exact ? 0 : 1.01e-5;
  P p( n, d ); Points X;
  for( std::size_t i = 0; i < n; i++ ) { std::vector<double> x; std::vector<T> t; for( std::size_t j = 0; j < d; j++ ) { x.push_back( value<T>( c.rng ) ); t.push_back( static_cast<T>( x.back() ) ); } X.push_back( x ); p.set( i, t.begin(), t.end() ); }
  std::ostringstream o; o.precision( precision ); o << p;
  auto text = o.str();
  if( c.rng.chance( 0.2 ) && !text.empty() ) text.pop_back(); // without the final line break
  P q;
  if( c.rng.chance( 0.5 ) ) { std::istringstream in( text ); q = aleph::containers::load<T>( in ); } else { auto f = c.scratch + "/p.txt"; writeFile( f, text ); q = aleph::containers::load<T>( f ); }
  c.eq( q.size(), n, "cloud-size", text ); c.eq( q.dimension(), d, "cloud-dimension", text );
  if( q.size() == n && q.dimension() == d )
  {
    bool ok = true; for( std::size_t i = 0; i < n; i++ ) { auto x = q[i]; for( std::size_t j = 0; j < d; j++ ) ok = ok && agree( x[j], X[i][j], tol ); }
    c.expect( ok, "cloud-points", text );
    if( exact ) c.expect( p == q, "cloud-equal", text );
  }
  c.desc << n << " points of dimension " << d; c.nontrivial( combine( dig( X ), static_cast<std::uint64_t>( precision ) ) );
}

std::vector<double> numbersIn( const std::string& s ) { std::istringstream in( s ); std::vector<double> v; double x; while( in >> x ) v.push_back( x ); return v; }

template <class T, class V> void drawings( Ctx& c )
{
  using S = Simplex<T,V>;
  CxOptions o; o.maxVertices = 9; o.maxDim = 3; o.idMode = c.rng.range( 0, 1 ); o.maxId = 300;
  auto A = randomComplex( c.rng, o ); auto k = toComplex<S>( A );
  unsigned top = 0; for( auto& s : A.s ) for( auto v : s ) top = std::max( top, v );
  std::size_t d = static_cast<std::size_t>( c.rng.range( 2, 4 ) );
  Points X; for( unsigned i = 0; i <= top; i++ ) { std::vector<double> x; for( std::size_t j = 0; j < d; j++ ) x.push_back( c.rng.chance( 0.3 ) ? c.rng.range( -3, 3 ) : c.rng.real( -100, 100 ) ); X.push_back( x ); }
  auto cloud = [&] { aleph::containers::PointCloud<double> p( X.size(), d ); for( std::size_t i = 0; i < X.size(); i++ ) p.set( i, X[i].begin(), X[i].end() ); return p; };
  std::vector<unsigned> vertices; std::vector<VSet> edges, triangles;
  for( auto& s : A.s ) { if( s.size() == 1 ) vertices.push_back( s[0] ); if( s.size() == 2 ) edges.push_back( s ); if( s.size() == 3 ) triangles.push_back( s ); }
  bool asCloud = c.rng.chance( 0.5 );
  auto run = [&]( auto& writer )
  {
    auto p = cloud();
    if( c.rng.chance( 0.5 ) ) { std::ostringstream out; if( asCloud ) writer( out, k, p ); else writer( out, k, X ); return out.str(); }
    auto f = c.scratch + "/drawing"; if( asCloud ) writer( f, k, p ); else writer( f, k, X ); return readFile( f );
  };
  auto matches = [&]( const std::vector<double>& x, unsigned v, std::size_t n ) { if( x.size() < n ) return false; for( std::size_t j = 0; j < n; j++ ) if( !agree( x[j], X[v][j], 1.01e-5 ) ) return false; return true; };

  {
    io::LinesAndPoints writer; bool labels = c.rng.chance( 0.5 ); if( labels || c.rng.chance( 0.5 ) ) writer.addVertexLabels( labels ); c.eq( writer.addVertexLabels(), labels, "option" );
    auto text = run( writer );
    std::vector<std::string> lines; std::istringstream in( text ); std::string l; while( std::getline( in, l ) ) lines.push_back( l );
    // first block: vertices; then two empty lines; then pairs of points, each followed by an empty line
    std::size_t i = 0; std::vector<std::string> first; while( i < lines.size() && !lines[i].empty() ) first.push_back( lines[ i++ ] );
    std::size_t empties = 0; while( i < lines.size() && lines[i].empty() ) { ++i; ++empties; }
    c.expect( empties >= 2, "lines-separator", text );
    std::size_t n = std::min<std::size_t>( d, 3 );
    c.eq( first.size(), vertices.size(), "lines-vertices", text );
    if( first.size() == vertices.size() )
    {
      // any order, every vertex once
      std::vector<char> used( vertices.size(), 0 ); bool ok = true;
      for( auto& f : first )
      {
        auto x = numbersIn( f ); ok = ok && x.size() == n + ( labels ? 1 : 0 ); bool found = false;
        for( std::size_t v = 0; v < vertices.size() && !found; v++ ) if( !used[v] && matches( x, vertices[v], n ) && ( !labels || x.back() == vertices[v] ) ) { used[v] = 1; found = true; }
        ok = ok && found;
      }
      c.expect( ok, "lines-points", text );
    }
    std::vector<std::vector<std::vector<double>>> blocks; 
    while( i < lines.size() ) { blocks.emplace_back(); while( i < lines.size() && !lines[i].empty() ) blocks.back().push_back( numbersIn( lines[ i++ ] ) ); while( i < lines.size() && lines[i].empty() ) ++i; }
    c.eq( blocks.size(), edges.size(), "lines-edges", text );
    if( blocks.size() == edges.size() )
    {
      std::vector<char> used( edges.size(), 0 ); bool ok = true;
      for( auto& b : blocks )
      {
        bool found = false;
        if( b.size() == 2 ) for( std::size_t e = 0; e < edges.size() && !found; e++ )
          if( !used[e] && ( ( matches( b[0], edges[e][0], n ) && matches( b[1], edges[e][1], n ) ) || ( matches( b[1], edges[e][0], n ) && matches( b[0], edges[e][1], n ) ) ) ) { used[e] = 1; found = true; }
        ok = ok && found;
      }
      c.expect( ok, "lines-lines", text );
    }
  }
  {
    io::TikZ writer; bool labels = c.rng.chance( 0.5 ), balls = c.rng.chance( 0.5 ), showTriangles = c.rng.chance( 0.5 );
    if( labels || c.rng.chance( 0.5 ) ) writer.showVertexLabels( labels );
    if( balls || c.rng.chance( 0.5 ) ) writer.showBalls( balls );
    if( showTriangles || c.rng.chance( 0.5 ) ) writer.showTriangles( showTriangles );
    writer.ballRadius( 0.5 );
    if( c.rng.chance( 0.5 ) ) { writer.pointColour( "red" ); writer.lineColour( "blue" ); writer.triangleColour( "green" ); writer.pointSize( 2 ); writer.triangleOpacity( 0.5 ); }
    c.expect( writer.showVertexLabels() == labels && writer.showBalls() == balls && writer.showTriangles() == showTriangles && writer.ballRadius() == 0.5, "option" );
    auto text = run( writer );
    static const std::regex point( "\\\\coordinate[^(]*\\(([0-9]+)\\) at \\(([^,]+),([^)]+)\\);" ), edge( "\\\\draw[^(]*\\(([0-9]+)\\) -- \\(([0-9]+)\\);" ), triangle( "\\\\fill[^(]*\\(([0-9]+)\\) -- \\(([0-9]+)\\) -- \\(([0-9]+)\\) -- cycle;" ), circle( "\\\\filldraw[^(]*\\(([0-9]+)\\) circle" ), ball( "\\\\fill\\[[^(]*\\(([0-9]+)\\) circle" );
    auto all = [&]( const std::regex& re ) { std::vector<std::smatch> r; for( std::sregex_iterator it( text.begin(), text.end(), re ), end; it != end; ++it ) r.push_back( *it ); return r; };
    auto id = []( const std::ssub_match& m ) { return static_cast<unsigned>( std::stoul( m ) ); };
    std::vector<unsigned> vs, cs, bs; bool ok = true;
    for( auto& m : all( point ) ) { auto v = id( m[1] ); vs.push_back( v ); ok = ok && v <= top && agree( std::stod( m[2] ), X[v][0], 1.01e-5 ) && agree( std::stod( m[3] ), X[v][1], 1.01e-5 ); if( labels ) ok = ok && m[0].str().find( ":" + std::to_string( v ) + "]" ) != std::string::npos; }
    for( auto& m : all( circle ) ) cs.push_back( id( m[1] ) );
    for( auto& m : all( ball ) ) bs.push_back( id( m[1] ) );
    auto sorted = vertices; std::sort( sorted.begin(), sorted.end() ); std::sort( vs.begin(), vs.end() ); std::sort( cs.begin(), cs.end() ); std::sort( bs.begin(), bs.end() );
    c.expect( ok && vs == sorted, "tikz-points", text ); c.expect( cs == sorted, "tikz-circles", text ); c.expect( bs == ( balls ? sorted : std::vector<unsigned>() ), "tikz-balls", text );
    std::vector<VSet> es, ts;
    for( auto& m : all( edge ) ) { VSet e{ id( m[1] ), id( m[2] ) }; std::sort( e.begin(), e.end() ); es.push_back( e ); }
    for( auto& m : all( triangle ) ) { VSet e{ id( m[1] ), id( m[2] ), id( m[3] ) }; std::sort( e.begin(), e.end() ); ts.push_back( e ); }
    auto se = edges, st = triangles; std::sort( se.begin(), se.end() ); std::sort( st.begin(), st.end() ); std::sort( es.begin(), es.end() ); std::sort( ts.begin(), ts.end() );
    c.expect( es == se, "tikz-edges", text ); c.expect( ts == ( showTriangles ? st : std::vector<VSet>() ), "tikz-triangles", text );
  }
  c.desc << A.text( 10 ); if( A.size() > 1 ) c.nontrivial( combine( A.digest(), dig( X ) ) );
}

} // namespace

#define TYPES( f ) switch( c.k % 4 ) { case 0: f<double,unsigned>( c ); break; case 1: f<double,unsigned short>( c ); break; case 2: f<float,unsigned>( c ); break; default: f<float,unsigned short>( c ); }

SECTION( gml, 2000, 20000 )      { TYPES( gml ) }
SECTION( diagrams, 2000, 20000 ) { if( c.k % 2 ) diagrams<double>( c ); else diagrams<float>( c ); }
SECTION( clouds, 2000, 20000 )   { if( c.k % 2 ) clouds<double>( c ); else clouds<float>( c ); }
SECTION( drawings, 1600, 16000 ) { TYPES( drawings ) }
