// Driver main(): executes the cases of one shard and reports what the
// monitors observed. Protocol (see bin/check.py): JSON lines in --out,
// current case in a memory-mapped --progress file.
#include "common.hh"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <typeinfo>

#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vp
{

std::vector<Section>& sections() { static std::vector<Section> s; return s; }

void writeFile( const std::string& path, const std::string& content )
{
  std::ofstream out( path, std::ios::binary );
  out << content;
  out.close();
  if( !out ) { std::fprintf( stderr, "HARNESS: cannot write %s\n", path.c_str() ); std::_Exit( 77 ); }
}

std::string readFile( const std::string& path )
{
  std::ifstream in( path, std::ios::binary );
  std::ostringstream o; o << in.rdbuf(); return o.str();
}

namespace
{

struct Progress { volatile std::uint64_t current, beat, finished; };

FILE* out = nullptr;
std::map<std::string,unsigned> reported;

std::string json( const std::string& s )
{
  std::string r = "\"";
  for( unsigned char ch : s )
  {
    if( ch == '"' || ch == '\\' ) { r += '\\'; r += static_cast<char>( ch ); }
    else if( ch == '\n' ) r += "\\n";
    else if( ch < 32 || ch > 126 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", ch ); r += b; }
    else r += static_cast<char>( ch );
  }
  return r + "\"";
}

std::string shorten( std::string s, std::size_t n ) { if( s.size() > n ) { s.resize( n ); s += "..."; } return s; }

std::string typeName( const std::type_info& t )
{
  int status = 0; char* p = abi::__cxa_demangle( t.name(), nullptr, nullptr, &status );
  std::string r = p ? p : t.name(); std::free( p ); return r;
}

} // namespace

void Ctx::fail( const std::string& key, const std::string& msg )
{
  std::string full = section_ + "/" + key;
  if( ++reported[ full ] > 5 ) return;
  std::fprintf( out, "{\"t\":\"viol\",\"section\":%s,\"key\":%s,\"case\":%llu,\"msg\":%s,\"desc\":%s}\n",
                json( section_ ).c_str(), json( full ).c_str(), static_cast<unsigned long long>( caseIndex_ ),
                json( shorten( msg, 2000 ) ).c_str(), json( shorten( desc.str(), 4000 ) ).c_str() );
  std::fflush( out );
}

} // namespace vp

int main( int argc, char** argv )
{
  using namespace vp;
  ::prctl( PR_SET_PDEATHSIG, SIGKILL ); // never outlive an interrupted check
  std::uint64_t seed = 1, shard = 0, shards = 1, start = 0; long long only = -1;
  bool thorough = false, list = false; std::string outPath, progressPath, scratch = "/nonexistent", property = "X", onlySection;
  double scale = 1.0;
  for( int i = 1; i < argc; i++ )
  {
    std::string a = argv[i];
    auto val = [&] { if( i + 1 >= argc ) std::_Exit( 77 ); return std::string( argv[++i] ); };
    if( a == "--seed" ) seed = std::strtoull( val().c_str(), nullptr, 10 );
    else if( a == "--shard" ) shard = std::strtoull( val().c_str(), nullptr, 10 );
    else if( a == "--shards" ) shards = std::strtoull( val().c_str(), nullptr, 10 );
    else if( a == "--start" ) start = std::strtoull( val().c_str(), nullptr, 10 );
    else if( a == "--case" ) only = std::strtoll( val().c_str(), nullptr, 10 );
    else if( a == "--tier" ) thorough = val() == "thorough";
    else if( a == "--out" ) outPath = val();
    else if( a == "--progress" ) progressPath = val();
    else if( a == "--scratch" ) scratch = val();
    else if( a == "--property" ) property = val();
    else if( a == "--section" ) onlySection = val();
    else if( a == "--scale" ) scale = std::atof( val().c_str() );
    else if( a == "--list" ) list = true;
    else { std::fprintf( stderr, "HARNESS: unknown option %s\n", a.c_str() ); std::_Exit( 77 ); }
  }

  auto& S = sections();
  std::sort( S.begin(), S.end(), []( const Section& a, const Section& b ) { return a.name < b.name; } );

  if( list ) { for( auto& s : S ) std::printf( "%s %llu %llu\n", s.name.c_str(), (unsigned long long) s.quick, (unsigned long long) s.thorough ); return 0; }

  out = outPath.empty() ? stdout : std::fopen( outPath.c_str(), "a" );
  if( !out ) std::_Exit( 77 );

  Progress* progress = nullptr; static Progress dummy;
  if( !progressPath.empty() )
  {
    int fd = ::open( progressPath.c_str(), O_RDWR | O_CREAT, 0644 );
    if( fd < 0 || ::ftruncate( fd, sizeof( Progress ) ) != 0 ) std::_Exit( 77 );
    void* p = ::mmap( nullptr, sizeof( Progress ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
    if( p == MAP_FAILED ) std::_Exit( 77 );
    progress = static_cast<Progress*>( p ); ::close( fd );
  }
  else progress = &dummy;

  std::map<std::string, SectionStats> stats;
  std::map<std::string, std::vector<std::uint64_t>> digests;
  std::map<std::string, unsigned> sampled;

  auto flush = [&]
  {
    std::string s = "{\"t\":\"stat\",\"pid\":" + std::to_string( ::getpid() ) + ",\"sections\":{";
    bool first = true;
    for( auto& kv : stats )
    {
      if( !first ) s += ","; first = false;
      s += json( kv.first ) + ":{\"cases\":" + std::to_string( kv.second.cases ) + ",\"checks\":" + std::to_string( kv.second.checks ) + ",\"skipped\":" + std::to_string( kv.second.skipped ) + "}";
    }
    s += "}}";
    std::fprintf( out, "%s\n", s.c_str() );
    for( auto& kv : digests ) if( !kv.second.empty() )
    {
      std::fprintf( out, "{\"t\":\"dig\",\"section\":%s,\"d\":[", json( kv.first ).c_str() );
      for( std::size_t i = 0; i < kv.second.size(); i++ ) std::fprintf( out, "%s%llu", i ? "," : "", static_cast<unsigned long long>( kv.second[i] ) );
      std::fprintf( out, "]}\n" ); kv.second.clear();
    }
    std::fflush( out );
  };

  std::uint64_t index = 0, sinceFlush = 0;
  for( auto& s : S )
  {
    std::uint64_t n = thorough ? s.thorough : s.quick;
    n = std::max<std::uint64_t>( 1, static_cast<std::uint64_t>( static_cast<double>( n ) * scale ) );
    for( std::uint64_t k = 0; k < n; ++k, ++index )
    {
      if( only >= 0 ) { if( index != static_cast<std::uint64_t>( only ) ) continue; }
      else if( index % shards != shard || index < start ) continue;
      if( !onlySection.empty() && s.name != onlySection ) continue;

      progress->current = index; progress->beat = progress->beat + 1;

      Ctx c;
      c.rng = Rng( combine( combine( seed * 0x9e3779b97f4a7c15ULL + 12345, hashString( property + "/" + s.name ) ), k ) );
      c.thorough = thorough; c.k = k; c.total = n; c.scratch = scratch; c.section_ = s.name; c.caseIndex_ = index;
      c.desc.precision( 10 );

      auto& st = stats[ s.name ];
      ++st.cases;
      try { s.f( c ); }
      catch( const Skip& ) { ++st.skipped; }
      catch( const std::exception& e ) { c.fail( "exception:" + typeName( typeid( e ) ), std::string( "unexpected exception: " ) + e.what() ); }
      catch( ... ) { c.fail( "exception:unknown", "unexpected exception of unknown type" ); }
      st.checks += c.checks_;
      if( c.isNontrivial_ ) digests[ s.name ].push_back( c.digest_ );
      unsigned& ns = sampled[ s.name ];
      if( ns < 1 && c.isNontrivial_ && shard == 0 && !c.desc.str().empty() )
      {
        ++ns;
        std::fprintf( out, "{\"t\":\"sample\",\"section\":%s,\"case\":%llu,\"checks\":%llu,\"desc\":%s}\n", json( s.name ).c_str(), (unsigned long long) index, (unsigned long long) c.checks_, json( shorten( c.desc.str(), 1200 ) ).c_str() );
      }
      if( ++sinceFlush >= 200 ) { sinceFlush = 0; flush(); }
    }
  }
  flush();
  std::fprintf( out, "{\"t\":\"done\",\"pid\":%d}\n", static_cast<int>( ::getpid() ) );
  std::fflush( out );
  progress->finished = 1;
  std::fclose( out );
  return 0;
}
