// Scenarios for the CPU memory allocator used by several threads (C06). Every block is written by its owner, so that the race
// detector reports any sharing of memory; the tags are verified as well.
#include "memory/cpu_memory.h"
#include "rt.h"
#include <cstring>
#include <memory>
#include <thread>
#include <vector>

using namespace vp;

namespace
{
    typedef std::vector<int> Program; // size > 0: allocate that many bytes; -1: free the oldest, -2: free the newest

    void work( cpu_Memory::MemoryAllocator * allocator, const Program * program, uint8_t tag )
    {
        struct Block
        {
            uint8_t * at;
            int size;
        };
        Block blocks[8];
        int n = 0;
        for ( size_t i = 0; i <= program->size() || n > 0; ++i ) {
            const int op = i < program->size() ? ( *program )[i] : -1;
            if ( op > 0 ) {
                blocks[n].at = allocator->allocate<uint8_t>( size_t( op ) );
                blocks[n].size = op;
                check( blocks[n].at != nullptr, "no memory was returned" );
                for ( int k = 0; k < op; ++k )
                    blocks[n].at[k] = tag;
                ++n;
            }
            else if ( n > 0 ) {
                const int which = op == -1 ? 0 : n - 1;
                for ( int k = 0; k < blocks[which].size; ++k )
                    check( blocks[which].at[k] == tag, "the content of a block was changed by another thread" );
                allocator->free( blocks[which].at );
                for ( int k = which; k + 1 < n; ++k )
                    blocks[k] = blocks[k + 1];
                --n;
            }
        }
    }

    void run( size_t arena, std::vector<Program> programs )
    {
        std::unique_ptr<cpu_Memory::MemoryAllocator> allocator( new cpu_Memory::MemoryAllocator );
        if ( arena )
            allocator->reserve( arena );
        std::vector<std::thread> threads;
        for ( size_t i = 1; i < programs.size(); ++i )
            threads.push_back( std::thread( work, allocator.get(), &programs[i], uint8_t( 17 * i + 3 ) ) );
        work( allocator.get(), &programs[0], 3 );
        for ( std::thread & t : threads )
            t.join();
        if ( arena > 1 ) { // the whole arena is free again
            uint8_t * first = allocator->allocate<uint8_t>( arena / 2 + 1 );
            uint8_t * base = first;
            memset( first, 1, arena / 2 + 1 );
            allocator->free( first );
            uint8_t * a = allocator->allocate<uint8_t>( arena / 2 );
            uint8_t * b = allocator->allocate<uint8_t>( arena / 2 );
            check( a != b && ( a < b ? a == base && b == base + arena / 2 : b == base && a == base + arena / 2 ), "the arena is not available in one piece after everything was freed" );
            memset( a, 2, arena / 2 );
            memset( b, 3, arena / 2 );
            allocator->free( a );
            allocator->free( b );
        }
        observe( 1 );
    }
}

int main( int argc, char ** argv )
{
    std::vector<Scenario> v;
    const std::vector<Program> programs = { { 1, -1 }, { 3, -1 }, { 1, 2, -1 }, { 4, 1, -2 }, { 2, -1, 2 }, { 1, -1, 4, -1 }, { 8, 1 } };
    const auto add = [&]( const std::string & name, size_t arena, const std::vector<Program> & p, int bound, bool quick ) {
        v.push_back( Scenario{ name, [=] { run( arena, p ); }, bound, false, quick } );
    };
    for ( size_t arena : { size_t( 0 ), size_t( 4 ), size_t( 8 ) } )
        for ( size_t i = 0; i < programs.size(); ++i )
            for ( size_t j = i; j < programs.size(); ++j ) {
                const std::string n = "two_" + std::to_string( arena ) + "_" + std::to_string( i ) + "_" + std::to_string( j );
                add( n, arena, { programs[i], programs[j] }, -1, true );
            }
    for ( size_t arena : { size_t( 4 ), size_t( 8 ) } )
        for ( size_t i = 0; i < programs.size(); ++i )
            for ( size_t j = i; j < programs.size(); ++j )
                for ( size_t k = j; k < programs.size(); ++k ) {
                    const bool small = programs[i].size() + programs[j].size() + programs[k].size() <= 6;
                    add( "three_" + std::to_string( arena ) + "_" + std::to_string( i ) + "_" + std::to_string( j ) + "_" + std::to_string( k ), arena, { programs[i], programs[j], programs[k] },
                         small ? 2 : 1, small );
                }
    return explore_main( argc, argv, v, REPORT_SEMANTIC | REPORT_DEADLOCK | REPORT_RACE | REPORT_MEMORY | REPORT_LEAK );
}
