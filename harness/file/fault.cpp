// C27: a save which cannot be completed is reported.
#include "common.h"

namespace
{
    void limit( rlim_t size )
    {
        struct rlimit r;
        getrlimit( RLIMIT_FSIZE, &r );
        r.rlim_cur = size;
        if ( setrlimit( RLIMIT_FSIZE, &r ) != 0 )
            _exit( 3 );
    }
    rlim_t unlimited()
    {
        struct rlimit r;
        getrlimit( RLIMIT_FSIZE, &r );
        return r.rlim_max;
    }

    struct Case
    {
        Kind kind;
        Shape shape;
        uint8_t alignment;
        bool byExtension, whole;
    };

    std::string describe( const Case & c )
    {
        return std::string( kindName[c.kind] ) + " " + std::to_string( c.shape.width ) + "x" + std::to_string( c.shape.height ) + "x" + std::to_string( c.shape.channels ) + " alignment "
               + std::to_string( c.alignment ) + ( c.byExtension ? " by extension" : "" ) + ( c.whole ? "" : " region" );
    }

    Outcome store( const Case & c, const std::string & path, const Image & image )
    {
        const uint32_t w = image.width(), h = image.height();
        if ( c.whole )
            return guarded( [&] { save( c.kind, path, image, c.byExtension, true, 0, 0, w, h ); } );
        return guarded( [&] { save( c.kind, path, image, c.byExtension, false, w > 1, 0, w - ( w > 1 ), h ); } );
    }

    bool loads( const Case & c, const std::string & path, const Content & expected )
    {
        Content loaded;
        guarded( [&] { loaded = content( load( c.kind, path, c.byExtension ? 2 : 0, Shape{ expected.width, expected.height, uint8_t( expected.channels ) } ) ); } );
        return loaded == expected;
    }

    void sizes( const Case & c, size_t every )
    {
        const std::string path = std::string( "file" ) + extension[c.kind];
        const Image image = makeImage( c.kind, c.shape, c.alignment, 4 );
        unlink( path.c_str() );
        if ( store( c, path, image ) != DONE )
            fail( "saving failed without a fault" );
        const Bytes complete = get( path );
        Content expected;
        guarded( [&] {
            expected = content( load( c.kind, path, 0, Shape{ c.whole ? c.shape.width : c.shape.width - ( c.shape.width > 1 ), c.shape.height, c.shape.channels } ) );
        } );
        if ( expected.pixels.empty() )
            fail( "a file saved without a fault was not loaded" );
        for ( int old = 0; old < 2; ++old ) { // a new file and a file in place of another one
            const size_t block = 16 * every;
            for ( size_t start = 0; start <= complete.size() + 2; start += block ) {
                if ( !next() )
                    continue;
                label( "%s, %s, limit from %zu", describe( c ).c_str(), old ? "overwritten" : "new", start );
                for ( size_t n = start; n < start + block; n += every ) {
                    // the last bytes are never skipped
                    const size_t bytes = n + every > complete.size() && n < complete.size() ? complete.size() - 1 : n;
                    phase( "%zu of %zu bytes", bytes, complete.size() );
                    if ( old )
                        put( path, Bytes( 30000, 0x77 ) );
                    else
                        unlink( path.c_str() );
                    Outcome o;
                    {
                        const Resources resources;
                        limit( bytes );
                        o = store( c, path, image );
                        limit( unlimited() );
                        resources.unchanged( "saving" );
                    }
                    ctx().compared += 1;
                    if ( o == DONE && bytes < complete.size() )
                        fail( "saving of %zu bytes succeeded while only %zu could be written", complete.size(), bytes );
                    if ( o != DONE && bytes >= complete.size() )
                        fail( "saving failed without a fault" );
                    if ( o == NO_MEMORY )
                        fail( "the failure is not reported by the exception of the library" );
                    if ( o == DONE && !loads( c, path, expected ) )
                        fail( "a saved file is not complete" );
                }
            }
        }
    }

    void memory( const Case & c )
    {
        if ( !next() )
            return;
        label( "%s without memory", describe( c ).c_str() );
        const std::string path = std::string( "file" ) + extension[c.kind];
        const Image image = makeImage( c.kind, c.shape, c.alignment, 4 );
        store( c, path, image );
        Content expected;
        guarded( [&] {
            expected = content( load( c.kind, path, 0, Shape{ c.whole ? c.shape.width : c.shape.width - ( c.shape.width > 1 ), c.shape.height, c.shape.channels } ) );
        } );
        for ( int64_t n = 1; n < 100; ++n ) {
            phase( "request %lld", (long long)n );
            unlink( path.c_str() );
            bool reached;
            Outcome o;
            {
                const Resources resources;
                {
                    heap::Track track( n );
                    o = store( c, path, image );
                    reached = track.reached();
                }
                resources.unchanged( "saving" );
            }
            ctx().compared += 1;
            if ( o == DONE && !loads( c, path, expected ) )
                fail( "a saved file is not complete" );
            if ( !reached )
                break;
        }
    }

    void places( const Case & c )
    {
        if ( !next() )
            return;
        label( "%s, places which cannot be written", describe( c ).c_str() );
        const Image image = makeImage( c.kind, c.shape, c.alignment, 4 );
        const std::string directory = std::string( "directory" ) + extension[c.kind];
        mkdir( directory.c_str(), 0755 );
        const std::string dangling = std::string( "dangling" ) + extension[c.kind];
        if ( symlink( "missing/missing", dangling.c_str() ) != 0 && errno != EEXIST )
            _exit( 3 );
        const std::string ext = extension[c.kind];
        for ( const std::string & path : { directory, dangling, "missing/file" + ext, std::string( 300, 'x' ) + ext, std::string( 5000, 'y' ) + ext, std::string( c.byExtension ? "" : "" ), "/dev/null/file" + ext } ) {
            phase( "%.30s", path.c_str() );
            const Resources resources;
            const Outcome o = store( c, path, image );
            resources.unchanged( "saving" );
            ctx().compared += 1;
            if ( o != REFUSED )
                fail( "saving succeeded" );
        }
        // no more files can be opened
        phase( "no file descriptor" );
        struct rlimit r;
        getrlimit( RLIMIT_NOFILE, &r );
        const rlim_t old = r.rlim_cur;
        r.rlim_cur = 3;
        setrlimit( RLIMIT_NOFILE, &r );
        const Outcome o = store( c, "none" + ext, image );
        r.rlim_cur = old;
        setrlimit( RLIMIT_NOFILE, &r );
        if ( o != REFUSED )
            fail( "saving succeeded" );
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    silence();
    signal( SIGXFSZ, SIG_IGN );
    const bool thorough = ctx().thorough;
    for ( int k = 0; k < KINDS; ++k ) { // everything allocated once
        const Kind kind = Kind( k );
        const Image image = makeImage( kind, Shape{ 2, 2, 1 }, 1, 0 );
        const std::string path = std::string( "first" ) + extension[kind];
        save( kind, path, image, false, true, 0, 0, 2, 2 );
        load( kind, path, 0, Shape{ 2, 2, 1 } );
        guarded( [&] { save( kind, "missing/file", image, false, true, 0, 0, 2, 2 ); } );
    }
    for ( int k = 0; k < KINDS; ++k )
        for ( int ext = 0; ext < ( k == RAW ? 1 : 2 ); ++ext )
            for ( int whole = 1; whole >= ( k == RAW ? 1 : 0 ); --whole )
                for ( uint8_t channels : { 1, 3 } ) {
                    const Kind kind = Kind( k );
                    auto make = [&]( uint32_t w, uint32_t h, uint8_t alignment ) { return Case{ kind, Shape{ w, h, channels }, alignment, ext == 1, whole == 1 }; };
                    const Case tiny = make( 2, 1, 1 ), small = make( 7, 5, 8 ), medium = make( 45, 40, 1 ), big = make( 160, 90, 4 ), wide = make( 3000, 3, 1 );
                    sizes( tiny, 1 );
                    sizes( small, 1 );
                    if ( ext == 0 ) {
                        sizes( medium, thorough ? 1 : 7 );
                        sizes( wide, thorough ? 1 : 61 );
                        sizes( big, thorough ? 3 : 97 );
                    }
                    memory( small );
                    memory( medium );
                    places( tiny );
                    places( medium );
                }
    vp::finish();
    return 0;
}
