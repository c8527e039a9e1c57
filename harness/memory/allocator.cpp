// C06: every sequence of allocate, free and reserve calls up to a depth, and every point at which the heap can be exhausted.
#include "memory/cpu_memory.h"
#include "vp.h"
#include <cstdint>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

using namespace vp;

namespace
{
    // what the code under test takes from the heap
    bool tracking = false;
    int64_t failAt = -1; // number of the heap request that fails
    int64_t requests = 0;
    struct Taken
    {
        uintptr_t at;
        size_t size;
    };
    Taken takenList[64];
    size_t takenCount = 0;

    void * take( size_t size )
    {
        if ( tracking ) {
            if ( ++requests == failAt )
                throw std::bad_alloc();
        }
        void * p = malloc( size ? size : 1 );
        if ( p == nullptr )
            throw std::bad_alloc();
        if ( tracking && takenCount < 64 ) {
            takenList[takenCount].at = reinterpret_cast<uintptr_t>( p );
            takenList[takenCount++].size = size;
        }
        return p;
    }
}

void * operator new( size_t s )
{
    return take( s );
}
void * operator new[]( size_t s )
{
    return take( s );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete[]( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    free( p );
}

namespace
{
    struct Track
    {
        explicit Track( int64_t fail = -1 )
        {
            tracking = true;
            requests = 0;
            failAt = fail;
            takenCount = 0;
        }
        ~Track()
        {
            tracking = false;
            failAt = -1;
        }
    };

    struct Block
    {
        uint8_t * at;
        size_t bytes;
        uint8_t tag;
        int type; // bytes of an element
        bool inArena;
    };

    enum Kind
    {
        ALLOC8,
        ALLOC16,
        ALLOC64,
        FREE,
        RESERVE
    };
    struct Step
    {
        Kind kind;
        size_t value;
    };

    std::string text( const std::vector<Step> & steps )
    {
        std::string s;
        for ( const Step & t : steps ) {
            char b[60];
            snprintf( b, sizeof b, "%s(%zu) ", t.kind == FREE ? "free" : t.kind == RESERVE ? "reserve" : t.kind == ALLOC8 ? "alloc8" : t.kind == ALLOC16 ? "alloc16" : "alloc64", t.value );
            s += b;
        }
        return s;
    }

    class World
    {
    public:
        explicit World( size_t arena )
        {
            allocator.reset( new cpu_Memory::MemoryAllocator );
            if ( arena )
                reserve( arena, -1 );
        }
        ~World() {}

        size_t live() const
        {
            return blocks.size();
        }

        // false: the heap request number `fail` was not reached
        bool step( const Step & s, int64_t fail )
        {
            ++ctx().calls;
            if ( s.kind == FREE ) {
                release( s.value );
                return true;
            }
            if ( s.kind == RESERVE )
                return reserve( s.value, fail );
            return allocate( s, fail );
        }

        // everything is freed (order: 0 first to last, 1 last to first, 2 even positions first) and the whole arena must be usable again
        void finishAll( int order )
        {
            phase( "freeing everything, order %d", order );
            if ( order == 2 ) {
                for ( size_t i = 0; i < blocks.size(); ++i )
                    release( i ); // erasing shifts: every second one
            }
            while ( !blocks.empty() )
                release( order == 1 ? blocks.size() - 1 : 0 );
            if ( arenaSize == 0 || arenaUnknown || exhausted )
                return;
            phase( "using the whole arena after freeing everything in order %d", order );
            for ( int round = 0; round < 2; ++round ) {
                std::vector<Step> want;
                for ( size_t left = arenaSize; left > 0; ) {
                    size_t v = 1;
                    while ( v * 2 <= left )
                        v *= 2;
                    // a request of the size of the arena itself may be served from the heap
                    want.push_back( Step{ ALLOC8, v == arenaSize ? v - 1 : v } );
                    left -= v;
                }
                if ( round == 1 ) {
                    if ( arenaSize > 20 || arenaSize < 2 )
                        break;
                    want.assign( arenaSize, Step{ ALLOC8, 1 } );
                }
                for ( const Step & w : want ) {
                    if ( w.value == 0 )
                        continue;
                    allocate( w, -1 );
                    expect( blocks.back().inArena, "a part of the preallocated memory is not available any more after everything was freed" );
                }
                while ( !blocks.empty() )
                    release( round == 0 ? 0 : blocks.size() - 1 );
            }
        }

    private:
        std::unique_ptr<cpu_Memory::MemoryAllocator> allocator;
        std::vector<Block> blocks;
        std::vector<Taken> arenaBlocks; // what reserve() took from the heap
        size_t arenaSize = 0;
        bool arenaUnknown = false; // the reserve call failed half way
        bool exhausted = false; // the heap was exhausted meanwhile: chunks may stay split
        uint8_t nextTag = 1;

        bool reserve( size_t size, int64_t fail )
        {
            bool usesArena = false;
            for ( const Block & b : blocks )
                usesArena = usesArena || b.inArena;
            bool threw = false, reached = false;
            {
                Track t( fail );
                try {
                    allocator->reserve( size );
                }
                catch ( const std::exception & ) {
                    threw = true;
                }
                reached = fail > 0 && requests >= fail;
                exhausted = exhausted || reached;
            }
            if ( reached ) {
                if ( !threw )
                    vp::fail( "reserve() hid that the heap is exhausted" );
                arenaUnknown = true;
                return true;
            }
            const bool sameSize = size == arenaSize && size != 0;
            if ( size == 0 ) {
                expect( threw, "reserve(0) was accepted" );
                return true;
            }
            if ( arenaUnknown ) {
                if ( !threw )
                    setArena( size );
                return true;
            }
            if ( sameSize ) {
                expect( !threw, "reserving the same size again was refused" );
                return true;
            }
            if ( usesArena ) {
                expect( threw, "reserve() was accepted while blocks of the previous arena are in use" );
                return true;
            }
            if ( size > ( size_t( 1 ) << 40 ) ) {
                expect( threw, "reserve() of more memory than exists did not fail" );
                arenaUnknown = true;
                return true;
            }
            expect( !threw, "reserve() was refused although no block is in use" );
            setArena( size );
            return true;
        }

        void setArena( size_t size )
        {
            arenaSize = size;
            arenaUnknown = false;
            arenaBlocks.assign( takenList, takenList + takenCount );
        }

        bool allocate( const Step & s, int64_t fail )
        {
            const size_t type = s.kind == ALLOC8 ? 1 : s.kind == ALLOC16 ? 2 : 8;
            const bool impossible = s.value > ( size_t( 1 ) << 40 );
            void * p = nullptr;
            bool threw = false, reached = false;
            {
                Track t( fail );
                try {
                    p = s.kind == ALLOC8 ? static_cast<void *>( allocator->allocate<uint8_t>( s.value ) )
                                         : s.kind == ALLOC16 ? static_cast<void *>( allocator->allocate<uint16_t>( s.value ) ) : static_cast<void *>( allocator->allocate<uint64_t>( s.value ) );
                }
                catch ( const std::bad_alloc & ) {
                    threw = true;
                }
                reached = fail > 0 && requests >= fail;
                exhausted = exhausted || reached;
            }
            ++ctx().compared;
            if ( impossible || threw ) {
                if ( !threw )
                    vp::fail( "a request of %zu elements of %zu bytes was served", s.value, type );
                if ( threw && !impossible && !reached )
                    vp::fail( "a request of %zu elements was refused although memory is available", s.value );
                return fail < 0 || reached;
            }
            if ( p == nullptr )
                vp::fail( "no memory was returned" );
            Block b;
            b.at = static_cast<uint8_t *>( p );
            b.bytes = s.value * type;
            b.type = int( type );
            b.tag = nextTag++;
            const uintptr_t at = reinterpret_cast<uintptr_t>( p );
            b.inArena = true;
            for ( size_t i = 0; i < takenCount; ++i )
                if ( at >= takenList[i].at && at <= takenList[i].at + takenList[i].size )
                    b.inArena = false;
            for ( const Block & o : blocks )
                if ( o.at == b.at || ( o.at < b.at + b.bytes && b.at < o.at + o.bytes ) )
                    vp::fail( "the block of %zu bytes overlaps a block of %zu bytes which is in use", b.bytes, o.bytes );
            if ( b.inArena ) {
                for ( const Taken & t : arenaBlocks )
                    if ( at >= t.at && at < t.at + t.size && at + b.bytes > t.at + t.size )
                        vp::fail( "the block of %zu bytes exceeds the arena", b.bytes );
                size_t align = 1;
                while ( align < b.bytes && align < 32 )
                    align *= 2;
                if ( at % align != 0 )
                    vp::fail( "the block of %zu bytes is not aligned to %zu bytes", b.bytes, align );
            }
            memset( b.at, b.tag, b.bytes );
            blocks.push_back( b );
            return fail < 0 || reached;
        }

        void release( size_t i )
        {
            if ( i >= blocks.size() )
                return;
            const Block b = blocks[i];
            for ( const Block & o : blocks )
                for ( size_t k = 0; k < o.bytes; k += ( k + 1 < o.bytes && o.bytes > 64 ) ? o.bytes - 1 : 1 )
                    if ( o.at[k] != o.tag )
                        vp::fail( "the content of a block was changed by somebody else" );
            ++ctx().compared;
            blocks.erase( blocks.begin() + long( i ) );
            if ( b.type == 1 )
                allocator->free( b.at );
            else if ( b.type == 2 )
                allocator->free( reinterpret_cast<uint16_t *>( b.at ) );
            else
                allocator->free( reinterpret_cast<uint64_t *>( b.at ) );
        }
    };

    void runSequence( size_t arena, const std::vector<Step> & steps, int order )
    {
        World w( arena );
        for ( size_t i = 0; i < steps.size(); ++i )
            w.step( steps[i], -1 );
        w.finishAll( order );
    }

    // the number of blocks in use after the steps: at most (failing requests do not matter: free of a missing block does nothing)
    void explore( size_t arena, const std::vector<Step> & alphabet, std::vector<Step> & steps, size_t live, size_t depth, size_t maxLive )
    {
        for ( int order = 0; order < 3; ++order )
            if ( ( order == 0 || live > 1 ) && ( order != 2 || live > 2 ) ) {
                snprintf( ctx().phase, sizeof ctx().phase, "%s", text( steps ).c_str() );
                snprintf( ctx().text, sizeof ctx().text, "arena of %zu bytes: %s", arena, text( steps ).c_str() );
                runSequence( arena, steps, order );
            }
        if ( depth == 0 )
            return;
        for ( const Step & a : alphabet ) {
            if ( a.kind != RESERVE && live >= maxLive )
                continue;
            if ( a.kind == RESERVE && !steps.empty() && steps.back().kind == RESERVE && steps.back().value == a.value )
                continue;
            steps.push_back( a );
            explore( arena, alphabet, steps, live + ( a.kind == RESERVE ? 0 : 1 ), depth - 1, maxLive );
            steps.pop_back();
        }
        for ( size_t i = 0; i < live; ++i ) {
            steps.push_back( Step{ FREE, i } );
            explore( arena, alphabet, steps, live - 1, depth - 1, maxLive );
            steps.pop_back();
        }
    }

    void faults( size_t arena, const std::vector<Step> & alphabet, std::vector<Step> & steps, size_t live, size_t depth )
    {
        for ( size_t i = 0; i < steps.size(); ++i ) {
            if ( steps[i].kind == FREE )
                continue;
            for ( int64_t n = 1; n < 60; ++n ) {
                snprintf( ctx().text, sizeof ctx().text, "arena of %zu bytes: %s", arena, text( steps ).c_str() );
                bool reached = true;
                {
                    World w( arena );
                    for ( size_t k = 0; k < steps.size(); ++k ) {
                        phase( "heap request %d of step %zu fails, step %zu", int( n ), i, k );
                        const bool r = w.step( steps[k], k == i ? n : -1 );
                        if ( k == i )
                            reached = r && steps[k].kind != RESERVE ? r : n < 40;
                    }
                    w.finishAll( 0 );
                }
                if ( !reached )
                    break;
            }
        }
        if ( depth == 0 )
            return;
        for ( const Step & a : alphabet ) {
            steps.push_back( a );
            faults( arena, alphabet, steps, live + ( a.kind == RESERVE ? 0 : 1 ), depth - 1 );
            steps.pop_back();
        }
        for ( size_t i = 0; i < live; ++i ) {
            steps.push_back( Step{ FREE, i } );
            faults( arena, alphabet, steps, live - 1, depth - 1 );
            steps.pop_back();
        }
    }

    // one case per sequence of the first two operations
    template <class F>
    void split( size_t arena, const std::vector<Step> & alphabet, const char * what, F f )
    {
        for ( size_t i = 0; i < alphabet.size(); ++i )
            for ( size_t j = 0; j < alphabet.size() + 1; ++j ) {
                if ( !next() )
                    continue;
                label( "%s, arena of %zu bytes", what, arena );
                std::vector<Step> steps;
                steps.push_back( alphabet[i] );
                size_t live = alphabet[i].kind == RESERVE ? 0 : 1;
                if ( j < alphabet.size() ) {
                    steps.push_back( alphabet[j] );
                    live += alphabet[j].kind == RESERVE ? 0 : 1;
                }
                else if ( live ) {
                    steps.push_back( Step{ FREE, 0 } );
                    live = 0;
                }
                f( steps, live );
            }
    }
}

int main( int argc, char ** argv )
{
    init( argc, argv );
    const bool deep = ctx().thorough;
    const size_t huge = size_t( -1 );
    // order of operations on arenas of every small size
    for ( size_t arena : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32 } ) {
        std::vector<Step> alphabet;
        std::vector<size_t> sizes;
        if ( arena <= 8 )
            sizes = { 1, 2, 3 };
        else
            sizes = { 1, 3, 4, 8 };
        for ( size_t s : sizes )
            alphabet.push_back( Step{ ALLOC8, s } );
        if ( arena <= 8 )
            alphabet.push_back( Step{ ALLOC8, arena } );
        split( arena, alphabet, "allocations and frees", [&]( std::vector<Step> & steps, size_t live ) { explore( arena, alphabet, steps, live, deep ? 6 : 4, 8 ); } );
        // many blocks of one size: all orders of freeing
        const std::vector<Step> one( 1, Step{ ALLOC8, arena <= 8 ? 1u : arena / 8 } );
        split( arena, one, "blocks of one size", [&]( std::vector<Step> & steps, size_t live ) { explore( arena, one, steps, live, deep ? 9 : 7, 6 ); } );
    }
    // vector sized blocks, other element types, reserve calls, impossible requests
    for ( size_t arena : { 0, 1, 2, 64, 100, 128, 255, 256, 1000 } ) {
        const std::vector<Step> alphabet = { { ALLOC8, 0 },          { ALLOC8, 16 },        { ALLOC8, 33 },      { ALLOC16, 16 },  { ALLOC16, 33 },  { ALLOC64, 3 },    { ALLOC8, 1000 },
                                             { ALLOC16, huge / 2 + 1 }, { ALLOC16, huge / 2 + 2 }, { ALLOC64, huge / 8 + 2 }, { ALLOC8, huge }, { RESERVE, 0 }, { RESERVE, arena }, { RESERVE, 96 } };
        split( arena, alphabet, "mixed requests", [&]( std::vector<Step> & steps, size_t live ) { explore( arena, alphabet, steps, live, deep ? 3 : 2, 8 ); } );
    }
    {
        const std::vector<Step> alphabet = { { ALLOC8, 5 }, { ALLOC8, 64 }, { RESERVE, 32 }, { RESERVE, 7 }, { RESERVE, huge }, { RESERVE, huge - 31 }, { RESERVE, huge - 32 }, { RESERVE, huge / 2 + 2 } };
        for ( size_t arena : { 0, 7, 64 } )
            split( arena, alphabet, "reserve calls", [&]( std::vector<Step> & steps, size_t live ) { explore( arena, alphabet, steps, live, deep ? 4 : 3, 8 ); } );
    }
    // heap exhaustion at every request of every step
    for ( size_t arena : { 0, 7, 8, 16, 100 } ) {
        std::vector<Step> alphabet = { { ALLOC8, 1 }, { ALLOC8, 3 }, { ALLOC16, 4 }, { ALLOC8, 200 }, { RESERVE, 32 } };
        split( arena, alphabet, "heap exhaustion", [&]( std::vector<Step> & steps, size_t live ) { faults( arena, alphabet, steps, live, deep ? 3 : 2 ); } );
    }
    finish();
    return 0;
}
