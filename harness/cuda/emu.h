// Control of the stand-in CUDA runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace cudaEmu
{
    struct State
    {
        int devices = 1;
        int maxThreads = 1024; // per block
        int maxDim[3] = { 1024, 1024, 64 };
        int maxGrid[3] = { 2147483647, 65535, 65535 };
        size_t memory = 64u << 20; // of every device

        uint64_t calls = 0; // calls of the runtime which may fail
        uint64_t failAt = 0; // number of the call which fails, 0 - none
        std::string failed; // its name

        uint64_t launches = 0, threads = 0, accesses = 0;
    };
    State & state();

    size_t blocks(); // live device allocations
    size_t hostBlocks();
    size_t streams();
    size_t plans();
    bool isDevice( const void * pointer, size_t size ); // the whole range belongs to one live device allocation
    size_t blockSize( const void * pointer ); // of a block beginning there
    void read( void * host, const void * device, size_t size ); // independent of streams, for the harness only
    void write( void * device, const void * host, size_t size );
    void forget(); // pending asynchronous operations
}
