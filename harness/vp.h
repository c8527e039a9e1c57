// Common part of the enumerating harnesses: case numbering, sharding, replay of one case, crash and hang reports, statistics.
#pragma once
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fnmatch.h>
#include <set>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

extern "C" void __sanitizer_set_death_callback( void ( *callback )( void ) ) __attribute__( ( weak ) );

namespace vp
{
    struct Failure
    {
        std::string what;
    };

    struct Ctx
    {
        uint64_t index = 0; // number of the current case
        uint64_t shard = 0, shards = 1;
        int64_t only = -1;
        bool thorough = false;
        uint64_t seed = 1;
        bool mine = false;
        bool inCase = false;
        char text[700] = "";
        char phase[200] = "";
        uint64_t cases = 0, calls = 0, compared = 0, refused = 0, nontrivial = 0;
        uint64_t knownHits = 0;
        std::vector<std::string> known;
        std::set<int> knownSeen;
        uint64_t nextSample = 1;
        std::set<std::string> failuresSeen;
        bool keepGoing = false;
        std::vector<std::string> args;
    };

    inline Ctx & ctx()
    {
        static Ctx c;
        return c;
    }

    inline void emitCase( const char * tag )
    {
        char b[1200];
        const int n = snprintf( b, sizeof b, "\n%s index=%llu case=%s%s%s\n", tag, (unsigned long long)( ctx().index ), ctx().text, ctx().phase[0] ? " / " : "", ctx().phase );
        if ( write( 1, b, size_t( n ) ) < 0 )
            _exit( 2 );
    }

    inline void onDeath()
    {
        fflush( stdout );
        emitCase( "CRASH" );
    }

    // the code under test ended the process by calling exit()
    inline bool & finished()
    {
        static bool f = false;
        return f;
    }
    inline void onExit()
    {
        if ( !finished() ) {
            fflush( stdout );
            emitCase( "CRASH" );
            fprintf( stderr, "SUMMARY: the process was ended by a call of exit()\n" );
            fflush( stderr );
            _exit( 77 );
        }
    }

    static volatile uint64_t lastIndex;
    static volatile int stuckFor;
    inline void onAlarm( int )
    {
        if ( lastIndex == ctx().index + ctx().calls ) {
            if ( ++stuckFor >= 24 ) { // 2 minutes without a finished call
                emitCase( "HANG" );
                _exit( 1 );
            }
        }
        else
            stuckFor = 0;
        lastIndex = ctx().index + ctx().calls;
    }

    inline void init( int argc, char ** argv )
    {
        Ctx & c = ctx();
        for ( int i = 1; i < argc; ++i ) {
            const std::string a = argv[i];
            if ( a == "--tier" )
                c.thorough = std::string( argv[++i] ) == "thorough";
            else if ( a == "--seed" )
                c.seed = strtoull( argv[++i], nullptr, 10 );
            else if ( a == "--shard" )
                sscanf( argv[++i], "%lu/%lu", &c.shard, &c.shards );
            else if ( a == "--index" )
                c.only = atoll( argv[++i] );
            else if ( a == "--known" )
                c.known.push_back( argv[++i] );
            else if ( a == "--keep-going" )
                c.keepGoing = true;
            else
                c.args.push_back( a );
        }
        if ( __sanitizer_set_death_callback )
            __sanitizer_set_death_callback( onDeath );
        atexit( onExit );
        struct sigaction sa;
        memset( &sa, 0, sizeof sa );
        sa.sa_handler = onAlarm;
        sa.sa_flags = SA_RESTART;
        sigaction( SIGALRM, &sa, nullptr );
        struct itimerval t;
        t.it_interval.tv_sec = t.it_value.tv_sec = 5;
        t.it_interval.tv_usec = t.it_value.tv_usec = 0;
        setitimer( ITIMER_REAL, &t, nullptr );
    }

    // starts the next case of the enumeration; false: not to be executed by this process
    inline bool next()
    {
        Ctx & c = ctx();
        ++c.index;
        c.phase[0] = 0;
        c.mine = c.only >= 0 ? int64_t( c.index ) == c.only : c.index % c.shards == c.shard;
        if ( c.mine )
            ++c.cases;
        return c.mine;
    }

    __attribute__( ( format( printf, 1, 2 ) ) ) inline void label( const char * fmt, ... )
    {
        va_list ap;
        va_start( ap, fmt );
        vsnprintf( ctx().text, sizeof ctx().text, fmt, ap );
        va_end( ap );
        ctx().phase[0] = 0;
        // samples at exponentially growing distances
        if ( ctx().shard == 0 && ctx().only < 0 && ctx().cases >= ctx().nextSample ) {
            ctx().nextSample = ctx().nextSample * 3 + 1;
            printf( "SAMPLE %s\n", ctx().text );
        }
    }
    __attribute__( ( format( printf, 1, 2 ) ) ) inline void phase( const char * fmt, ... )
    {
        va_list ap;
        va_start( ap, fmt );
        vsnprintf( ctx().phase, sizeof ctx().phase, fmt, ap );
        va_end( ap );
    }

    inline void finish();

    __attribute__( ( format( printf, 1, 2 ) ) ) inline void fail( const char * fmt, ... )
    {
        char what[1500];
        va_list ap;
        va_start( ap, fmt );
        vsnprintf( what, sizeof what, fmt, ap );
        va_end( ap );
        const std::string key = std::string( ctx().text ) + ( ctx().phase[0] ? std::string( " / " ) + ctx().phase : "" ) + " | " + what;
        for ( size_t i = 0; i < ctx().known.size(); ++i ) {
            if ( fnmatch( ctx().known[i].c_str(), key.c_str(), 0 ) == 0 ) {
                ++ctx().knownHits;
                if ( ctx().knownSeen.insert( int( i ) ).second )
                    printf( "KNOWN %d\n", int( i ) );
                return;
            }
        }
        if ( ctx().keepGoing ) { // development aid: one line per kind of failure
            std::string kind;
            for ( char ch : std::string( what ) )
                if ( ch < '0' || ch > '9' )
                    kind += ch;
            std::string first = std::string( ctx().text ).substr( 0, std::string( ctx().text ).find( ' ' ) );
            if ( ctx().failuresSeen.insert( first + kind ).second )
                printf( "FAILURE index=%llu %s\n", (unsigned long long)ctx().index, key.c_str() ), fflush( stdout );
            return;
        }
        fflush( stdout );
        emitCase( "FAIL" );
        printf( "WHAT %s\n", what );
        fflush( stdout );
        _exit( 1 );
    }

    inline void expect( bool ok, const char * what )
    {
        ++ctx().compared;
        if ( !ok )
            fail( "%s", what );
    }

    inline void finish()
    {
        Ctx & c = ctx();
        finished() = true;
        printf( "STAT states=%llu transitions=%llu traces_validated_against_impl=%llu refused_calls=%llu known_finding_hits=%llu\n", (unsigned long long)c.cases,
                (unsigned long long)c.calls, (unsigned long long)c.compared, (unsigned long long)c.refused, (unsigned long long)c.knownHits );
        fflush( stdout );
    }
}
