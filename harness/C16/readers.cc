// Matrix, VTK grid, HDF5 field, PLY mesh, function, spectrum and lexicographic
// triangulation readers. The model of every file is kept next to its text.
#include "../C15/files.hh"

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>

#include <H5Cpp.h>

using namespace vp;
using namespace aleph::topology;

namespace
{

using Model = std::map<VSet,double>;

VSet vs( std::initializer_list<std::size_t> l )
{
  VSet v; for( auto x : l ) v.push_back( static_cast<int>( x ) ); std::sort( v.begin(), v.end() ); return v;
}

// One of several symmetric, associative functors
template <class T> T combineWeights( int f, T a, T b ) { return f == 0 ? std::max( a, b ) : f == 1 ? std::min( a, b ) : static_cast<T>( a + b ); }

template <class T> struct Functor { int f; T operator()( T a, T b ) const { return combineWeights( f, a, b ); } };

// Sums of three values depend on the order of the summation
template <class K> void compareModel( Ctx& c, const K& k, const Model& expected, const std::string& key, const std::string& file, double tol )
{
  if( tol == 0 ) { compareGraph( c, k, expected, key, file ); return; }
  auto actual = weightsOf( k );
  bool ok = k.size() == actual.size() && actual.size() == expected.size();
  for( auto& kv : expected ) { auto it = actual.find( kv.first ); ok = ok && it != actual.end() && Ctx::close( it->second, kv.second, tol ); }
  c.expectf( ok, key, [&]( std::ostream& o ) { o << "actual " << text( actual ).substr( 0, 1500 ) << " expected " << text( expected ).substr( 0, 1500 ) << " file\n" << file.substr( 0, 2000 ); } );
}

std::string lineEnd( Rng& rng, bool last, bool crlf ) { if( last && rng.chance( 0.2 ) ) return ""; return crlf ? "\r\n" : "\n"; }

// Sizes beyond those of small counters
void enlarge( Rng& rng, std::size_t& H, std::size_t& W )
{
  H = static_cast<std::size_t>( rng.range( 15, 30 ) ); W = static_cast<std::size_t>( rng.range( 15, 30 ) );
  if( rng.chance( 0.5 ) ) { H = static_cast<std::size_t>( rng.range( 1, 2 ) ); W = static_cast<std::size_t>( rng.range( 250, 330 ) ); if( rng.chance( 0.5 ) ) std::swap( H, W ); }
}

template <class T, class V> void matrix( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::MatrixReader reader;
  std::uint64_t h = 1; int rounds = c.rng.range( 1, 3 ); bool triangles = true;
  for( int r = 0; r < rounds; r++ )
  {
    auto H = static_cast<std::size_t>( c.rng.chance( 0.2 ) ? 1 : c.rng.range( 1, c.thorough ? 12 : 7 ) ), W = static_cast<std::size_t>( c.rng.chance( 0.2 ) ? 1 : c.rng.range( 1, c.thorough ? 12 : 7 ) );
    if( c.rng.chance( 0.01 ) ) enlarge( c.rng, H, W );
    bool special = c.rng.chance( 0.15 ), crlf = c.rng.chance( 0.1 );
    std::vector<T> v; std::string s;
    for( std::size_t y = 0; y < H; y++ )
    {
      s += noise( c.rng, { "#", "#1", " #" } ) + blanks( c.rng, 0, 2 );
      for( std::size_t x = 0; x < W; x++ )
      {
        if( x ) s += blanks( c.rng, 1, 3 );
        std::string t = numberText( c.rng );
        if( special && c.rng.chance( 0.3 ) ) t = c.rng.pick( std::vector<std::string>{ "inf", "INF", "infinity", "+inf" } );
        s += t; v.push_back( parseAs( t, T() ) );
      }
      s += blanks( c.rng, 0, 2 ) + lineEnd( c.rng, y + 1 == H, crlf );
    }
    if( s.empty() || s.back() == '\n' ) s += noise( c.rng, { "#" } );
    if( c.rng.chance( 0.4 ) ) { triangles = c.rng.chance( 0.5 ); reader.addTriangles( triangles ); }
    int f = special ? c.rng.range( 0, 1 ) : c.rng.range( 0, 2 ); bool byDefault = f == 0 && c.rng.chance( 0.5 );

    Model E; auto at = [&]( std::size_t x, std::size_t y ) { return y * W + x; };
    auto put = [&]( std::initializer_list<std::size_t> l ) { bool first = true; T w = T(); for( auto i : l ) { w = first ? v[i] : combineWeights( f, w, v[i] ); first = false; } E[ vs( l ) ] = static_cast<double>( w ); };
    for( std::size_t y = 0; y < H; y++ ) for( std::size_t x = 0; x < W; x++ )
    {
      put( { at( x, y ) } );
      if( x + 1 < W ) put( { at( x, y ), at( x + 1, y ) } );
      if( y + 1 < H ) put( { at( x, y ), at( x, y + 1 ) } );
      if( x + 1 < W && y + 1 < H )
      {
        put( { at( x, y ), at( x + 1, y + 1 ) } );
        if( triangles ) { put( { at( x, y ), at( x + 1, y ), at( x + 1, y + 1 ) } ); put( { at( x, y ), at( x + 1, y + 1 ), at( x, y + 1 ) } ); }
      }
    }
    K k; if( c.rng.chance( 0.3 ) ) k.push_back( S( V( 50 ) ) );
    Functor<T> F{ f };
    if( c.rng.chance( 0.5 ) ) { std::istringstream in( s ); if( byDefault ) reader( in, k ); else reader( in, k, F ); }
    else { auto file = c.scratch + "/m.txt"; writeFile( file, s ); if( byDefault ) reader( file, k ); else reader( file, k, F ); }
    c.eq( reader.height(), H, "height" ); c.eq( reader.width(), W, "width" );
    compareModel( c, k, E, "matrix", s, f == 2 ? 1e-5 : 0 );
    h = combine( h, dig( s ) );
    if( r == 0 ) c.desc << H << "x" << W << " matrix, functor " << f;
  }
  c.nontrivial( h );
}

template <class T, class V> void vtk( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::VTKStructuredGridReader reader;
  std::uint64_t h = 2; int rounds = c.rng.range( 1, 3 );
  for( int r = 0; r < rounds; r++ )
  {
    std::size_t d[3]; for( auto& x : d ) x = static_cast<std::size_t>( c.rng.chance( 0.25 ) ? 1 : c.rng.range( 1, c.thorough ? 7 : 5 ) );
    if( c.rng.chance( 0.01 ) ) { auto i = c.rng.below( 3 ); d[ ( i + 2 ) % 3 ] = c.rng.below( 2 ) + 1; enlarge( c.rng, d[i], d[ ( i + 1 ) % 3 ] ); }
    std::size_t n = d[0] * d[1] * d[2];
    bool crlf = c.rng.chance( 0.1 ); std::string nl = crlf ? "\r\n" : "\n";
    auto sp = [&] { return blanks( c.rng, 1, 2 ); };
    auto end = [&] { return ( c.rng.chance( 0.15 ) ? blanks( c.rng, 1, 2 ) : std::string() ) + nl; };
    auto blank = [&] { return c.rng.chance( 0.15 ) ? nl : std::string(); };
    static const std::vector<std::pair<std::string,std::size_t>> types = { { "double", 8 }, { "float", 4 }, { "int", 4 }, { "long", sizeof( long ) }, { "short", 2 }, { "char", 1 }, { "unsigned_int", 4 }, { "unsigned_char", 1 }, { "unsigned_short", 2 }, { "unsigned_long", sizeof( unsigned long ) } };
    auto type = c.rng.chance( 0.6 ) ? types[ c.rng.below( 2 ) ] : c.rng.pick( types );
    std::string s = "# vtk DataFile Version " + std::to_string( c.rng.range( 1, 4 ) ) + ".0" + end() + c.rng.pick( std::vector<std::string>{ "VTK Output", "a title with 3 numbers 4 5", "x" } ) + end() + "ASCII" + end() + "DATASET" + sp() + "STRUCTURED_GRID" + end()
      + "DIMENSIONS" + sp() + std::to_string( d[0] ) + sp() + std::to_string( d[1] ) + sp() + std::to_string( d[2] ) + end() + "POINTS" + sp() + std::to_string( n ) + sp() + type.first + end();
    auto numbers = [&]( std::size_t m, std::vector<T>* out )
    {
      std::size_t per = static_cast<std::size_t>( c.rng.range( 1, 9 ) ), col = 0;
      for( std::size_t i = 0; i < m; i++ )
      {
        auto t = numberText( c.rng ); if( out ) out->push_back( parseAs( t, T() ) );
        s += ( col ? sp() : c.rng.chance( 0.1 ) ? sp() : std::string() ) + t;
        if( ++col == per || i + 1 == m ) { s += end(); col = 0; if( i + 1 < m ) s += blank(); }
      }
    };
    numbers( 3 * n, nullptr );
    s += blank();
    s += "POINT_DATA" + sp() + std::to_string( n ) + end() + blank();
    auto name = word( c.rng ); if( c.rng.chance( 0.4 ) ) name += c.rng.pick( std::vector<std::string>{ "_2", "-x", ".f", "7", "(m)" } );
    auto stype = c.rng.pick( types ).first;
    s += "SCALARS" + sp() + name + sp() + stype + ( c.rng.chance( 0.5 ) ? sp() + "1" : std::string() ) + end() + "LOOKUP_TABLE" + sp() + "default" + end();
    std::vector<T> v; numbers( n, &v );
    while( c.rng.chance( 0.2 ) ) s += nl;
    if( c.rng.chance( 0.2 ) && !crlf ) { while( !s.empty() && std::isspace( static_cast<unsigned char>( s.back() ) ) ) s.pop_back(); }

    int f = c.rng.range( 0, 2 ); bool byDefault = f == 0 && c.rng.chance( 0.5 );
    auto at = [&]( std::size_t x, std::size_t y, std::size_t z ) { return ( z * d[1] + y ) * d[0] + x; };
    Model E;
    for( std::size_t z = 0; z < d[2]; z++ ) for( std::size_t y = 0; y < d[1]; y++ ) for( std::size_t x = 0; x < d[0]; x++ )
    {
      auto i = at( x, y, z ); E[ vs( { i } ) ] = static_cast<double>( v[i] );
      auto edge = [&]( std::size_t j ) { E[ vs( { i, j } ) ] = static_cast<double>( combineWeights( f, v[i], v[j] ) ); };
      if( x + 1 < d[0] ) edge( at( x + 1, y, z ) );
      if( y + 1 < d[1] ) edge( at( x, y + 1, z ) );
      if( z + 1 < d[2] ) edge( at( x, y, z + 1 ) );
    }
    K k; Functor<T> F{ f };
    auto file = c.scratch + "/g.vtk"; writeFile( file, s );
    if( c.rng.chance( 0.2 ) )
    {
      io::SimplicialComplexReader any; if( byDefault ) any( file, k ); else any( file, k, F );
    }
    else
    {
      if( c.rng.chance( 0.5 ) ) { if( byDefault ) reader( file, k ); else reader( file, k, F ); }
      else { std::ifstream in( file ); if( byDefault ) reader( in, k ); else reader( in, k, F ); }
      c.eq( reader.scalarsName(), name, "name", s ); c.eq( reader.scalarsType(), stype, "type", s ); c.eq( reader.dataTypeSize(), type.second, "size", s );
    }
    compareModel( c, k, E, "grid", s, 0 );
    h = combine( h, dig( s ) );
    if( r == 0 ) c.desc << d[0] << "x" << d[1] << "x" << d[2] << " grid, functor " << f;
  }
  c.nontrivial( h );
}

template <class T, class V> void hdf5( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::HDF5SimpleDataSpaceReader reader;
  std::uint64_t h = 3; int rounds = c.rng.range( 1, 2 );
  for( int r = 0; r < rounds; r++ )
  {
    auto H = static_cast<std::size_t>( c.rng.chance( 0.2 ) ? 1 : c.rng.range( 1, 8 ) ), W = static_cast<std::size_t>( c.rng.chance( 0.2 ) ? 1 : c.rng.range( 1, 8 ) );
    if( c.rng.chance( 0.02 ) ) enlarge( c.rng, H, W );
    auto kind = c.rng.below( 6 ); bool single = kind >= 3;
    std::vector<double> v; for( std::size_t i = 0; i < H * W; i++ ) { double x = c.rng.chance( 0.3 ) ? c.rng.range( -5, 5 ) : c.rng.real( -100, 100 ); v.push_back( single ? static_cast<double>( static_cast<float>( x ) ) : x ); }
    std::string group = c.rng.pick( std::vector<std::string>{ "/", "/a", "/a/b" } ), name = c.rng.pick( std::vector<std::string>{ "YField", "z", "my field" } );
    bool generic = c.rng.chance( 0.2 ); if( generic ) { group = "/"; name = "YField"; }
    auto file = c.scratch + "/f" + std::to_string( r ) + ".h5";
    {
      H5::H5File out( file, H5F_ACC_TRUNC );
      hsize_t dims[2] = { H, W }; H5::DataSpace space( 2, dims );
      if( group != "/" ) { out.createGroup( "/a" ); if( group == "/a/b" ) out.createGroup( "/a/b" ); }
      H5::PredType types[] = { H5::PredType::NATIVE_DOUBLE, H5::PredType::IEEE_F64LE, H5::PredType::IEEE_F64BE, H5::PredType::NATIVE_FLOAT, H5::PredType::IEEE_F32LE, H5::PredType::IEEE_F32BE };
      auto g = out.openGroup( group );
      g.createDataSet( name, types[ kind ], space ).write( v.data(), H5::PredType::NATIVE_DOUBLE );
      if( c.rng.chance( 0.3 ) ) { hsize_t one[2] = { 2, 2 }; double x[4] = { 1, 2, 3, 4 }; g.createDataSet( "other", H5::PredType::NATIVE_DOUBLE, H5::DataSpace( 2, one ) ).write( x, H5::PredType::NATIVE_DOUBLE ); }
    }
    if( r || group != "/" || c.rng.chance( 0.5 ) ) reader.setGroupName( group );
    if( r || name != "YField" || c.rng.chance( 0.5 ) ) reader.setDataSetName( name );
    c.eq( reader.groupName(), group, "option" ); c.eq( reader.dataSetName(), name, "option" );

    int f = c.rng.range( 0, 2 ); bool byDefault = f == 0 && c.rng.chance( 0.5 );
    std::vector<T> t( v.begin(), v.end() );
    Model E; auto at = [&]( std::size_t x, std::size_t y ) { return y * W + x; };
    auto put = [&]( std::initializer_list<std::size_t> l ) { bool first = true; T w = T(); for( auto i : l ) { w = first ? t[i] : combineWeights( f, w, t[i] ); first = false; } E[ vs( l ) ] = static_cast<double>( w ); };
    for( std::size_t y = 0; y < H; y++ ) for( std::size_t x = 0; x < W; x++ )
    {
      put( { at( x, y ) } );
      if( x + 1 < W ) put( { at( x, y ), at( x + 1, y ) } );
      if( y + 1 < H ) put( { at( x, y ), at( x, y + 1 ) } );
      if( x + 1 < W && y > 0 )
      {
        put( { at( x, y ), at( x + 1, y - 1 ) } );
        put( { at( x, y ), at( x + 1, y - 1 ), at( x + 1, y ) } ); put( { at( x, y ), at( x, y - 1 ), at( x + 1, y - 1 ) } );
      }
    }
    K k; Functor<T> F{ f };
    if( generic ) { io::SimplicialComplexReader any; if( byDefault ) any( file, k ); else any( file, k, F ); }
    else if( byDefault ) reader( file, k ); else reader( file, k, F );
    compareModel( c, k, E, "field", std::to_string( H ) + "x" + std::to_string( W ) + " " + str( v ), f == 2 ? 1e-5 : 0 );
    h = combine( h, combine( dig( v ), H * 100 + kind ) );
    if( r == 0 ) c.desc << H << "x" << W << " field of type " << kind << ", functor " << f;
  }
  c.nontrivial( h );
}

template <class T, class V> void ply( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::PLYReader reader; std::string current = "z";
  std::uint64_t h = 4; int rounds = c.rng.range( 1, 3 );
  for( int r = 0; r < rounds; r++ )
  {
    bool large = c.rng.chance( 0.01 ); auto n = static_cast<std::size_t>( large ? c.rng.range( 100, 400 ) : c.rng.range( 1, c.thorough ? 25 : 12 ) );
    static const std::vector<std::string> types = { "float", "double", "float32", "float64" }, ints = { "uchar", "int", "uint8", "int32", "uint", "short", "ushort", "char", "uint32", "int8", "int16", "uint16" };
    std::vector<std::string> props = { "x", "y", "z" };
    int extra = c.rng.range( 0, 3 ); static const std::vector<std::string> names = { "quality", "nx", "intensity", "red" };
    for( int i = 0; i < extra; i++ ) props.push_back( names[ static_cast<std::size_t>( i ) ] );
    if( c.rng.chance( 0.4 ) ) c.rng.shuffle( props );
    std::string nl = c.rng.chance( 0.1 ) ? "\r\n" : "\n";
    auto comment = [&] { return c.rng.chance( 0.2 ) ? "comment made by 3 people element vertex 7" + nl : std::string(); };
    std::set<VSet> faces; std::vector<std::vector<std::size_t>> order;
    if( n >= 3 ) { int m = large ? c.rng.range( 250, 400 ) : c.rng.range( 0, 12 ); for( int i = 0; i < m; i++ )
    {
      std::vector<std::size_t> p; while( p.size() < 3 ) { auto x = c.rng.below( n ); if( std::find( p.begin(), p.end(), x ) == p.end() ) p.push_back( x ); }
      if( faces.insert( vs( { p[0], p[1], p[2] } ) ).second ) order.push_back( p );
    } }
    std::string s = "ply" + nl + "format ascii 1.0" + nl + comment() + "element vertex " + std::to_string( n ) + nl;
    for( auto& p : props ) s += comment() + "property " + c.rng.pick( types ) + " " + p + nl;
    if( !order.empty() || c.rng.chance( 0.7 ) )
      s += "element face " + std::to_string( order.size() ) + nl + comment() + "property list " + c.rng.pick( ints ) + " " + c.rng.pick( ints ) + " " + c.rng.pick( std::vector<std::string>{ "vertex_index", "vertex_indices" } ) + nl;
    s += "end_header" + nl;
    std::map<std::string,std::vector<T>> value;
    for( std::size_t i = 0; i < n; i++ )
    {
      if( c.rng.chance( 0.1 ) ) s += " ";
      for( std::size_t j = 0; j < props.size(); j++ ) { auto t = numberText( c.rng ); value[ props[j] ].push_back( parseAs( t, T() ) ); s += ( j ? blanks( c.rng, 1, 2 ) : std::string() ) + t; }
      s += nl;
    }
    for( auto& p : order ) s += "3 " + std::to_string( p[0] ) + blanks( c.rng, 1, 2 ) + std::to_string( p[1] ) + " " + std::to_string( p[2] ) + nl;

    if( c.rng.chance( 0.5 ) ) { current = c.rng.chance( 0.8 ) ? c.rng.pick( props ) : std::string( c.rng.chance( 0.5 ) ? "" : "missing" ); reader.setDataProperty( current ); }
    std::vector<T> w( n, T() ); if( value.count( current ) ) w = value[ current ];
    Model E;
    for( std::size_t i = 0; i < n; i++ ) E[ vs( { i } ) ] = static_cast<double>( w[i] );
    for( auto& f : faces )
    {
      auto W = [&]( int i ) { return static_cast<double>( w[ static_cast<std::size_t>( i ) ] ); };
      for( std::size_t a = 0; a < 3; a++ ) for( std::size_t b = a + 1; b < 3; b++ ) E[ VSet{ f[a], f[b] } ] = std::max( W( f[a] ), W( f[b] ) );
      E[ f ] = std::max( std::max( W( f[0] ), W( f[1] ) ), W( f[2] ) );
    }
    K k; auto file = c.scratch + "/p.ply"; writeFile( file, s );
    if( c.rng.chance( 0.2 ) && !current.empty() ) { io::SimplicialComplexReader any; any.setDataAttribute( current ); c.eq( any.dataAttribute(), current, "option" ); any( file, k ); }
    else if( c.rng.chance( 0.5 ) ) reader( file, k ); else { std::ifstream in( file ); reader( in, k ); }
    compareModel( c, k, E, "mesh", s, 0 );
    expectFiltration( c, k, "mesh-order" );
    h = combine( h, dig( s ) );
    if( r == 0 ) c.desc << n << " vertices, " << order.size() << " faces, property " << current;
  }
  c.nontrivial( h );
}

// The complex of a function is a path
template <class T> Model pathModel( const std::vector<T>& v, int f )
{
  Model E;
  for( std::size_t i = 0; i < v.size(); i++ ) { E[ vs( { i } ) ] = static_cast<double>( v[i] ); if( i + 1 < v.size() ) E[ vs( { i, i + 1 } ) ] = static_cast<double>( combineWeights( f, v[i], v[ i + 1 ] ) ); }
  return E;
}

template <class T, class V> void functions( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  std::string s; std::vector<std::vector<T>> v; int m = c.rng.range( 1, 4 );
  std::string nl = c.rng.chance( 0.1 ) ? "\r\n" : "\n";
  for( int i = 0; i < m; i++ )
  {
    v.emplace_back(); int n = c.rng.range( 1, 14 );
    s += blanks( c.rng, 0, 1 );
    for( int j = 0; j < n; j++ ) { auto t = numberText( c.rng ); v.back().push_back( parseAs( t, T() ) ); s += ( j ? blanks( c.rng, 1, 2 ) : std::string() ) + t; }
    s += blanks( c.rng, 0, 1 ); if( i + 1 < m || c.rng.chance( 0.8 ) ) s += nl;
  }
  auto file = c.scratch + "/f.txt"; writeFile( file, s );
  int f = c.rng.range( 0, 2 ); Functor<T> F{ f };
  auto Ks = f == 0 && c.rng.chance( 0.5 ) ? io::loadFunctions<K>( file ) : io::loadFunctions<K>( file, F );
  c.eq( Ks.size(), v.size(), "functions", s );
  for( std::size_t i = 0; i < std::min( Ks.size(), v.size() ); i++ ) compareModel( c, Ks[i], pathModel( v[i], f ), "function", s, 0 );
  for( auto& x : v ) compareModel( c, io::loadFunction<K>( x.begin(), x.end(), F ), pathModel( x, f ), "range", str( x ), 0 );

  // All values of a file at once, as a boundary matrix
  std::vector<T> all; for( auto& x : v ) all.insert( all.end(), x.begin(), x.end() );
  aleph::topology::BoundaryMatrix<aleph::topology::representations::Vector<unsigned>> M; std::vector<T> values( 3, T( 5 ) );
  io::loadFunction( file, M, values );
  std::size_t n = all.size(), N = 2 * n - 1;
  c.eq( values.size(), N, "boundary-values", s ); c.eq( M.getNumColumns(), static_cast<unsigned>( N ), "boundary-columns", s );
  if( values.size() == N && M.getNumColumns() == N )
  {
    c.expect( std::is_sorted( values.begin(), values.end() ), "boundary-order", s );
    // The matrix has to describe a path whose values are those of the function, in either direction
    std::vector<std::vector<unsigned>> nb( N ); bool ok = true; std::size_t nv = 0;
    for( unsigned j = 0; j < N; j++ )
    {
      auto col = M.getColumn( j );
      if( col.empty() ) { ++nv; c.eq( M.getDimension( j ), 0u, "boundary-dimension", s ); continue; }
      c.eq( M.getDimension( j ), 1u, "boundary-dimension", s );
      ok = ok && col.size() == 2 && col[0] < j && col[1] < j && col[0] != col[1];
      if( !ok ) break;
      ok = ok && values[j] == std::max( values[ col[0] ], values[ col[1] ] );
      nb[ col[0] ].push_back( col[1] ); nb[ col[1] ].push_back( col[0] );
    }
    ok = ok && nv == n;
    if( ok )
    {
      std::vector<T> walk; std::vector<unsigned> ends;
      for( unsigned j = 0; j < N; j++ ) { ok = ok && nb[j].size() <= 2; if( M.getColumn( j ).empty() && nb[j].size() <= 1 ) ends.push_back( j ); }
      if( ok && !ends.empty() )
      {
        unsigned at = ends[0], from = at; bool first = true;
        for( ;; ) { walk.push_back( values[at] ); unsigned next = at; bool found = false; for( auto x : nb[at] ) if( first || x != from ) { next = x; found = true; } if( !found || walk.size() > n ) break; from = at; at = next; first = false; }
        auto rev = walk; std::reverse( rev.begin(), rev.end() );
        ok = walk == all || rev == all;
      }
      else ok = false;
    }
    c.expectf( ok, "boundary-path", [&]( std::ostream& o ) { o << s << " values " << str( values ); } );
  }
  c.desc << m << " functions, functor " << f;
  c.nontrivial( combine( dig( s ), static_cast<std::uint64_t>( f ) ) );
}

template <class T, class V> void spectrum( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::FlexSpectrumReader reader;
  std::uint64_t h = 6; int rounds = c.rng.range( 1, 3 ); bool normalize = false;
  for( int r = 0; r < rounds; r++ )
  {
    std::string s; int n = c.rng.range( r ? 0 : 1, 15 ); std::vector<double> xs; std::vector<T> ys;
    std::string nl = c.rng.chance( 0.1 ) ? "\r\n" : "\n";
    auto junk = [&] { while( c.rng.chance( 0.25 ) ) s += c.rng.pick( std::vector<std::string>{ "", "# comment 1 2", "m/z intensity", "-- 5 6", "//" } ) + nl; };
    junk();
    double x = c.rng.range( 0, 500 );
    for( int i = 0; i < n; i++ )
    {
      x += c.rng.real( 0.1, 5 ); std::ostringstream o; o.precision( 8 ); o << x;
      auto t = nonZeroText( c.rng, false );
      xs.push_back( std::strtod( o.str().c_str(), nullptr ) ); ys.push_back( parseAs( t, T() ) );
      s += o.str() + blanks( c.rng, 1, 3 ) + t + nl; junk();
    }
    if( c.rng.chance( 0.5 ) ) { normalize = c.rng.chance( 0.5 ); reader.normalize( normalize ); }
    c.eq( const_cast<const io::FlexSpectrumReader&>( reader ).normalize(), normalize, "flag" );
    T total = T(); for( auto y : ys ) total += y;
    std::vector<T> w = ys; if( normalize ) for( auto& y : w ) y = y / total;
    Model E = pathModel( w, 1 );
    auto file = c.scratch + "/s.txt"; writeFile( file, s );
    K k; reader( file, k );
    compareModel( c, k, E, "spectrum", s, normalize ? 1e-5 : 0 );
    expectFiltration( c, k, "spectrum-order", false );
    auto vm = reader.getIndexToValueMap(); auto im = reader.getIndexToIntensityMap();
    c.eq( vm.size(), xs.size(), "values", s ); c.eq( im.size(), xs.size(), "intensities", s );
    for( std::size_t i = 0; i < xs.size(); i++ )
    {
      c.expect( vm.count( i ) && vm[i] == xs[i], "value", s );
      c.expect( im.count( i ) && Ctx::close( im[i], static_cast<double>( w[i] ), 1e-5 ), "intensity", s );
    }
    h = combine( h, dig( s ) );
    if( r == 0 ) c.desc << n << " peaks, normalised " << normalize;
  }
  c.nontrivial( h );
}

template <class T, class V> void lexicographic( Ctx& c )
{
  using S = Simplex<T,V>; using K = SimplicialComplex<S>;
  io::LexicographicTriangulationReader reader;
  std::uint64_t h = 7; int rounds = c.rng.range( 1, 2 );
  for( int r = 0; r < rounds; r++ )
  {
    std::string s; int m = c.rng.range( 1, 4 ); std::vector<std::set<VSet>> model;
    std::string nl = c.rng.chance( 0.1 ) ? "\r\n" : "\n";
    auto ws = [&]( double p ) { std::string t; while( c.rng.chance( p ) ) t += c.rng.pick( std::vector<std::string>{ " ", "\t", nl, nl + nl, nl + "# comment 1,2" + nl } ); return t; };
    auto inner = [&]( double p ) { std::string t; while( c.rng.chance( p ) ) t += " "; return t; };
    auto junk = [&] { while( c.rng.chance( 0.2 ) ) s += c.rng.pick( std::vector<std::string>{ "", "   ", "# [1,2]", "#" } ) + nl; };
    junk();
    for( int i = 0; i < m; i++ )
    {
      std::set<VSet> set; std::vector<std::vector<int>> order; int d = c.rng.range( 1, 4 ), n = c.rng.range( d, 12 ), q = c.rng.range( 1, 8 );
      for( int j = 0; j < q; j++ )
      {
        std::vector<int> p; while( static_cast<int>( p.size() ) < d ) { int x = c.rng.range( 1, n ); if( std::find( p.begin(), p.end(), x ) == p.end() ) p.push_back( x ); }
        VSet v( p.begin(), p.end() ); std::sort( v.begin(), v.end() );
        if( set.insert( v ).second ) order.push_back( p );
      }
      model.push_back( set );
      s += "manifold_2_" + std::to_string( d ) + "_n" + std::to_string( i ) + inner( 0.2 ) + "=" + ws( 0.15 ) + "[" + ws( 0.1 );
      for( std::size_t j = 0; j < order.size(); j++ )
      {
        if( j ) s += "," + ws( 0.2 );
        s += "[" + inner( 0.1 );
        for( std::size_t l = 0; l < order[j].size(); l++ ) s += ( l ? "," + ( c.rng.chance( 0.1 ) ? nl : inner( 0.1 ) ) : std::string() ) + std::to_string( order[j][l] ) + inner( 0.1 );
        s += "]" + inner( 0.15 );
      }
      s += ws( 0.1 ) + "]"; if( i + 1 < m || c.rng.chance( 0.8 ) ) s += nl;
      if( s.back() == '\n' ) junk();
    }
    std::vector<K> Ks( c.rng.below( 3 ) );
    if( c.rng.chance( 0.5 ) ) { std::istringstream in( s ); reader( in, Ks ); } else { auto file = c.scratch + "/l.txt"; writeFile( file, s ); reader( file, Ks ); }
    c.eq( Ks.size(), model.size(), "number", s );
    for( std::size_t i = 0; i < std::min( Ks.size(), model.size() ); i++ )
    {
      Model E; for( auto& v : model[i] ) E[v] = 0;
      compareModel( c, Ks[i], E, "triangulation", s, 0 );
    }
    h = combine( h, dig( s ) );
    if( r == 0 ) c.desc << m << " triangulations";
  }
  c.nontrivial( h );
}

} // namespace

#define TYPES( f ) switch( c.k % 4 ) { case 0: f<double,unsigned>( c ); break; case 1: f<double,unsigned short>( c ); break; case 2: f<float,unsigned>( c ); break; default: f<float,unsigned short>( c ); }

SECTION( matrix, 2400, 24000 )        { TYPES( matrix ) }
SECTION( vtk, 1600, 16000 )           { TYPES( vtk ) }
SECTION( hdf5, 1600, 16000 )          { TYPES( hdf5 ) }
SECTION( ply, 2000, 20000 )           { TYPES( ply ) }
SECTION( functions, 2400, 24000 )     { TYPES( functions ) }
SECTION( spectrum, 2000, 20000 )      { TYPES( spectrum ) }
SECTION( lexicographic, 2000, 20000 ) { TYPES( lexicographic ) }
