// Stand-in CUDA runtime, see include/cuda_runtime.h.
// Device memory is poisoned for host code. Device threads of a launch are executed one after another; every access of them is recorded, so accesses out of bounds, to
// host memory or to memory of another device, and conflicting accesses of two threads are reported. A launch without conflicting accesses gives the same result for
// every interleaving of its threads, hence the executed order decides all of them; if threads write the same byte the reverse order is executed as well.
// Work of different streams is ordered only by synchronisation: every operation is compared with the operations which may be still pending in other streams.
#include "emu.h"
#include "vp.h"
#include <cuda_runtime.h>
#include <cufft.h>
#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim
#include <complex>
#include <map>
#include <memory>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <set>
#include <vector>

namespace
{
    typedef std::vector<std::pair<uintptr_t, uintptr_t>> Ranges;
    struct Pending
    {
        Ranges reads, writes;
        const char * what;
    };
}
struct cudaEmuStream
{
    int device;
    bool blocking;
    std::vector<Pending> pending;
};

namespace
{
    struct Record
    {
        uint32_t epoch = 0, reader = 0, writer = 0, atomic = 0;
        bool manyReaders = false, manyAtomics = false;
    };
    struct Block
    {
        size_t size;
        int device;
        std::unique_ptr<Record[]> record;
    };
    const uint32_t MANY = 0xFFFFFFFFu;

    cudaEmu::State st;
    std::map<uintptr_t, Block> memory;
    std::map<void *, size_t> pinned;
    std::set<cudaEmuStream *> liveStreams;
    std::map<int, cudaEmuStream> defaultStream;
    std::map<int, std::pair<int, int>> plan;
    int currentDevice = 0;
    cudaError_t lastError = cudaSuccess;

    cudaError_t error( cudaError_t e )
    {
        if ( e != cudaSuccess )
            lastError = e;
        return e;
    }
    bool fault( const char * name )
    {
        if ( ++st.calls != st.failAt )
            return false;
        st.failed = name;
        return true;
    }
#define FAULT( name )                                                                                                                                                   \
    if ( fault( name ) )                                                                                                                                                \
        return error( cudaErrorUnknown );

    std::map<uintptr_t, Block>::iterator owner( uintptr_t a )
    {
        auto i = memory.upper_bound( a );
        if ( i == memory.begin() )
            return memory.end();
        --i;
        return a < i->first + std::max<size_t>( i->second.size, 1 ) ? i : memory.end();
    }
    cudaEmuStream & defaults()
    {
        cudaEmuStream & s = defaultStream[currentDevice];
        s.device = currentDevice;
        s.blocking = true;
        return s;
    }
    bool overlap( const Ranges & a, const Ranges & b )
    {
        for ( const auto & p : a )
            for ( const auto & q : b )
                if ( p.first < q.second && q.first < p.second )
                    return true;
        return false;
    }
    void submit( cudaEmuStream & s, Pending op )
    {
        const auto check = [&]( const cudaEmuStream & other ) {
            if ( &other == &s )
                return;
            const bool isDefault = &s == &defaultStream[s.device], otherDefault = defaultStream.count( other.device ) && &other == &defaultStream[other.device];
            if ( s.device == other.device && ( ( isDefault && other.blocking ) || ( otherDefault && s.blocking ) ) )
                return;
            for ( const Pending & p : other.pending )
                if ( overlap( p.writes, op.writes ) || overlap( p.writes, op.reads ) || overlap( p.reads, op.writes ) )
                    vp::fail( "%s is not synchronised with %s which may be still executed in another stream", op.what, p.what );
        };
        for ( const cudaEmuStream * o : liveStreams )
            check( *o );
        for ( const auto & o : defaultStream )
            check( o.second );
        s.pending.push_back( std::move( op ) );
    }
    void synchronizeDevice( int device )
    {
        for ( cudaEmuStream * s : liveStreams )
            if ( s->device == device )
                s->pending.clear();
        defaultStream[device].pending.clear();
    }
    void synchronizeDefault()
    {
        for ( cudaEmuStream * s : liveStreams )
            if ( s->device == currentDevice && s->blocking )
                s->pending.clear();
        defaults().pending.clear();
    }

    // ------------------------------------------------------------------------------------------------ launches
    struct Run
    {
        bool active = false, inside = false;
        dim3 grid, block;
        uint64_t count = 0, done = 0, total = 0;
        int pass = 0;
        bool sameWrites = false;
        uint32_t epoch = 0, thread = 0;
        cudaEmuStream * stream = nullptr;
        std::map<uintptr_t, std::vector<uint8_t>> before, result;
        Ranges reads, writes;
        std::map<uintptr_t, Block>::iterator last;
        uintptr_t stackLow = 0, stackHigh = 0;
    } run;
    uint32_t epochs = 0;

    void add( Ranges & r, uintptr_t a, size_t n )
    {
        if ( !r.empty() && r.back().second == a )
            r.back().second = a + n;
        else if ( r.empty() || !( r.back().first <= a && a + n <= r.back().second ) )
            r.push_back( { a, a + n } );
    }
    Ranges merged( Ranges r )
    {
        std::sort( r.begin(), r.end() );
        Ranges o;
        for ( auto & p : r )
            if ( !o.empty() && p.first <= o.back().second )
                o.back().second = std::max( o.back().second, p.second );
            else
                o.push_back( p );
        return o;
    }
    void save( std::map<uintptr_t, std::vector<uint8_t>> & m )
    {
        m.clear();
        for ( auto & b : memory )
            if ( b.second.device == currentDevice ) {
                const uint8_t * p = reinterpret_cast<const uint8_t *>( b.first );
                m[b.first].assign( p, p + b.second.size );
            }
    }
    enum Kind
    {
        READ,
        WRITE,
        ATOMIC
    };

    [[noreturn]] void die( const char * what, uintptr_t a, size_t n )
    {
        fprintf( stderr, "CUDA: %s (address %p, %zu bytes, block %u,%u,%u thread %u,%u,%u)\n", what, reinterpret_cast<void *>( a ), n, cudaEmu::builtin.blockIdx.x,
                 cudaEmu::builtin.blockIdx.y, cudaEmu::builtin.blockIdx.z, cudaEmu::builtin.threadIdx.x, cudaEmu::builtin.threadIdx.y, cudaEmu::builtin.threadIdx.z );
        fflush( stderr );
        abort();
    }
    // returns false if the address belongs to memory of the device thread itself
    void device( uintptr_t a, size_t n, Kind kind )
    {
        ++st.accesses;
        if ( run.last == memory.end() || a < run.last->first || a >= run.last->first + run.last->second.size ) {
            run.last = owner( a );
            if ( run.last == memory.end() ) {
                if ( __asan_region_is_poisoned( reinterpret_cast<void *>( a ), n ) )
                    __asan_report_error( __builtin_return_address( 0 ), __builtin_frame_address( 0 ), __builtin_frame_address( 0 ), reinterpret_cast<void *>( a ), kind != READ, n );
                if ( a >= run.stackLow && a < run.stackHigh )
                    return;
                die( "device code accesses memory which is not on the device", a, n );
            }
        }
        Block & b = run.last->second;
        const uintptr_t off = a - run.last->first;
        if ( off + n > b.size )
            __asan_report_error( __builtin_return_address( 0 ), __builtin_frame_address( 0 ), __builtin_frame_address( 0 ), reinterpret_cast<void *>( a ), kind != READ, n );
        if ( b.device != currentDevice )
            die( "device code accesses memory of another device", a, n );
        if ( run.pass )
            return;
        if ( !b.record )
            b.record.reset( new Record[b.size] );
        for ( size_t k = 0; k < n; ++k ) {
            Record & r = b.record[off + k];
            if ( r.epoch != run.epoch ) {
                r = Record();
                r.epoch = run.epoch;
            }
            const uint32_t t = run.thread;
            const auto other = [t]( uint32_t who ) { return who != 0 && who != t; };
            if ( kind != READ && other( r.reader ) )
                vp::fail( "two threads of a kernel read and write the same memory without synchronisation" );
            if ( kind == READ && ( other( r.writer ) || other( r.atomic ) ) )
                vp::fail( "two threads of a kernel read and write the same memory without synchronisation" );
            if ( ( kind == WRITE && other( r.atomic ) ) || ( kind == ATOMIC && other( r.writer ) ) )
                vp::fail( "two threads of a kernel write the same memory, one of them not atomically" );
            if ( kind == WRITE && other( r.writer ) )
                run.sameWrites = true;
            uint32_t & who = kind == READ ? r.reader : kind == WRITE ? r.writer : r.atomic;
            who = other( who ) ? MANY : t;
        }
        if ( kind != WRITE )
            add( run.reads, a, n );
        if ( kind != READ )
            add( run.writes, a, n );
    }

    inline void access( uintptr_t a, size_t n, bool write )
    {
        if ( run.inside ) {
            const uintptr_t b = reinterpret_cast<uintptr_t>( &cudaEmu::builtin );
            if ( a >= b && a < b + sizeof( cudaEmu::builtin ) )
                return;
            device( a, n, write ? WRITE : READ );
        }
        else if ( __asan_region_is_poisoned( reinterpret_cast<void *>( a ), n ) ) {
            if ( owner( a ) != memory.end() )
                die( "host code accesses device memory", a, n );
            __asan_report_error( __builtin_return_address( 0 ), __builtin_frame_address( 0 ), __builtin_frame_address( 0 ), reinterpret_cast<void *>( a ), write, n );
        }
    }

    struct Open // device memory is accessible in the scope
    {
        Open()
        {
            for ( auto & b : memory )
                __asan_unpoison_memory_region( reinterpret_cast<void *>( b.first ), b.second.size );
        }
        ~Open()
        {
            for ( auto & b : memory )
                __asan_poison_memory_region( reinterpret_cast<void *>( b.first ), b.second.size );
        }
    };
    std::unique_ptr<Open> open;

    bool inDevice( const void * p, size_t n, const char * what )
    {
        const auto i = owner( reinterpret_cast<uintptr_t>( p ) );
        if ( i == memory.end() )
            return false;
        if ( reinterpret_cast<uintptr_t>( p ) + n > i->first + i->second.size )
            vp::fail( "%s of %zu bytes exceeds an allocation of %zu bytes", what, n, i->second.size );
        return reinterpret_cast<uintptr_t>( p ) + n <= i->first + i->second.size;
    }

    cudaError_t copy( void * dst, size_t dpitch, const void * src, size_t spitch, size_t width, size_t height, cudaMemcpyKind kind, cudaEmuStream & s, bool wait )
    {
        if ( width == 0 || height == 0 )
            return cudaSuccess;
        if ( width > dpitch || width > spitch )
            return error( cudaErrorInvalidValue );
        const size_t dsize = ( height - 1 ) * dpitch + width, ssize = ( height - 1 ) * spitch + width;
        const bool toDevice = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice, fromDevice = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
        if ( toDevice != ( owner( reinterpret_cast<uintptr_t>( dst ) ) != memory.end() ) || fromDevice != ( owner( reinterpret_cast<uintptr_t>( src ) ) != memory.end() ) )
            return error( cudaErrorInvalidValue );
        if ( ( toDevice && !inDevice( dst, dsize, "a copy to the device" ) ) || ( fromDevice && !inDevice( src, ssize, "a copy from the device" ) ) )
            return error( cudaErrorInvalidValue );
        Pending p;
        p.what = "a copy";
        for ( size_t y = 0; y < height; ++y ) {
            if ( fromDevice )
                p.reads.push_back( { reinterpret_cast<uintptr_t>( src ) + y * spitch, reinterpret_cast<uintptr_t>( src ) + y * spitch + width } );
            if ( toDevice )
                p.writes.push_back( { reinterpret_cast<uintptr_t>( dst ) + y * dpitch, reinterpret_cast<uintptr_t>( dst ) + y * dpitch + width } );
        }
        submit( s, std::move( p ) );
        {
            Open o;
            for ( size_t y = 0; y < height; ++y )
                memmove( static_cast<uint8_t *>( dst ) + y * dpitch, static_cast<const uint8_t *>( src ) + y * spitch, width );
        }
        if ( wait ) {
            if ( &s == &defaults() )
                synchronizeDefault();
            else
                s.pending.clear();
        }
        return cudaSuccess;
    }
    cudaEmuStream * get( cudaStream_t s, const char * what )
    {
        if ( s == nullptr )
            return &defaults();
        if ( !liveStreams.count( s ) ) {
            vp::fail( "%s in a stream which does not exist", what );
            return nullptr;
        }
        return s;
    }
}

namespace cudaEmu
{
    Builtin builtin;

    State & state()
    {
        return st;
    }
    size_t blocks()
    {
        return memory.size();
    }
    size_t hostBlocks()
    {
        return pinned.size();
    }
    size_t streams()
    {
        return liveStreams.size();
    }
    size_t plans()
    {
        return plan.size();
    }
    bool isDevice( const void * p, size_t n )
    {
        const auto i = owner( reinterpret_cast<uintptr_t>( p ) );
        return i != memory.end() && reinterpret_cast<uintptr_t>( p ) + n <= i->first + i->second.size;
    }
    size_t blockSize( const void * p )
    {
        const auto i = memory.find( reinterpret_cast<uintptr_t>( p ) );
        return i == memory.end() ? 0 : i->second.size;
    }
    void read( void * host, const void * dev, size_t n )
    {
        if ( !isDevice( dev, n ) )
            vp::fail( "%zu bytes are not in device memory", n );
        else {
            Open o;
            memcpy( host, dev, n );
        }
    }
    void write( void * dev, const void * host, size_t n )
    {
        if ( !isDevice( dev, n ) )
            vp::fail( "%zu bytes are not in device memory", n );
        else {
            Open o;
            memcpy( dev, host, n );
        }
    }
    void forget()
    {
        for ( auto & d : defaultStream )
            d.second.pending.clear();
        for ( cudaEmuStream * s : liveStreams )
            s->pending.clear();
    }

    cudaError_t mallocDevice( void ** p, size_t n )
    {
        if ( fault( "cudaMalloc" ) )
            return error( cudaErrorMemoryAllocation );
        if ( currentDevice >= st.devices )
            return error( cudaErrorNoDevice );
        size_t used = 0;
        for ( auto & b : memory )
            if ( b.second.device == currentDevice )
                used += b.second.size;
        if ( n > st.memory || used + n > st.memory )
            return error( cudaErrorMemoryAllocation );
        if ( n == 0 ) {
            *p = nullptr;
            return cudaSuccess;
        }
        void * m = nullptr;
        if ( posix_memalign( &m, 256, n ) )
            abort();
        memset( m, 0xCD, n );
        Block & b = memory[reinterpret_cast<uintptr_t>( m )];
        b.size = n;
        b.device = currentDevice;
        __asan_poison_memory_region( m, n );
        *p = m;
        return cudaSuccess;
    }
    cudaError_t mallocHost( void ** p, size_t n )
    {
        if ( fault( "cudaMallocHost" ) )
            return error( cudaErrorMemoryAllocation );
        if ( n > st.memory )
            return error( cudaErrorMemoryAllocation );
        *p = malloc( n ? n : 1 );
        pinned[*p] = n;
        return cudaSuccess;
    }
    void atomicAccess( const void * p, size_t n )
    {
        if ( !run.inside )
            die( "an atomic function outside of a kernel", reinterpret_cast<uintptr_t>( p ), n );
        device( reinterpret_cast<uintptr_t>( p ), n, ATOMIC );
    }

    bool begin( dim3 grid, dim3 block, size_t, cudaStream_t stream )
    {
        cudaEmuStream * s = get( stream, "a launch" );
        if ( s == nullptr ) {
            error( cudaErrorInvalidResourceHandle );
            return false;
        }
        if ( fault( "launch" ) ) {
            error( cudaErrorUnknown );
            return false;
        }
        if ( currentDevice >= st.devices ) {
            error( cudaErrorNoDevice );
            return false;
        }
        if ( s->device != currentDevice ) {
            error( cudaErrorInvalidResourceHandle );
            return false;
        }
        const uint64_t threads = uint64_t( block.x ) * block.y * block.z;
        if ( threads == 0 || threads > uint64_t( st.maxThreads ) || block.x > unsigned( st.maxDim[0] ) || block.y > unsigned( st.maxDim[1] ) || block.z > unsigned( st.maxDim[2] )
             || grid.x == 0 || grid.y == 0 || grid.z == 0 || grid.x > unsigned( st.maxGrid[0] ) || grid.y > unsigned( st.maxGrid[1] ) || grid.z > unsigned( st.maxGrid[2] ) ) {
            error( cudaErrorInvalidConfiguration );
            return false;
        }
        ++st.launches;
        run.active = true;
        run.grid = grid;
        run.block = block;
        run.total = uint64_t( grid.x ) * grid.y * grid.z;
        run.count = run.total * threads;
        run.done = 0;
        run.pass = 0;
        run.sameWrites = false;
        run.epoch = ++epochs;
        run.stream = s;
        run.reads.clear();
        run.writes.clear();
        run.last = memory.end();
        if ( !run.stackHigh ) {
            pthread_attr_t at;
            void * low = nullptr;
            size_t size = 0;
            pthread_getattr_np( pthread_self(), &at );
            pthread_attr_getstack( &at, &low, &size );
            pthread_attr_destroy( &at );
            run.stackLow = reinterpret_cast<uintptr_t>( low );
            run.stackHigh = run.stackLow + size;
        }
        open.reset( new Open );
        save( run.before );
        builtin.blockDim = block;
        builtin.gridDim = grid;
        return true;
    }
    bool next()
    {
        run.inside = false;
        if ( run.done == run.count ) {
            if ( run.pass == 0 && run.sameWrites ) { // the other order
                save( run.result );
                for ( auto & b : run.before )
                    memcpy( reinterpret_cast<void *>( b.first ), b.second.data(), b.second.size() );
                run.pass = 1;
                run.done = 0;
            }
            else {
                if ( run.pass == 1 ) {
                    for ( auto & b : run.result )
                        if ( memcmp( reinterpret_cast<void *>( b.first ), b.second.data(), b.second.size() ) != 0 )
                            vp::fail( "the result of a kernel depends on the order of its threads" );
                }
                return false;
            }
        }
        uint64_t id = run.pass ? run.count - 1 - run.done : run.done;
        ++run.done;
        ++st.threads;
        run.thread = uint32_t( id + 1 );
        builtin.threadIdx.x = unsigned( id % run.block.x );
        id /= run.block.x;
        builtin.threadIdx.y = unsigned( id % run.block.y );
        id /= run.block.y;
        builtin.threadIdx.z = unsigned( id % run.block.z );
        id /= run.block.z;
        builtin.blockIdx.x = unsigned( id % run.grid.x );
        id /= run.grid.x;
        builtin.blockIdx.y = unsigned( id % run.grid.y );
        builtin.blockIdx.z = unsigned( id / run.grid.y );
        run.inside = true;
        return true;
    }
    void end()
    {
        open.reset();
        run.active = false;
        Pending p;
        p.reads = merged( run.reads );
        p.writes = merged( run.writes );
        p.what = "a kernel";
        submit( *run.stream, std::move( p ) );
    }
}

extern "C" {
cudaError_t cudaGetDeviceCount( int * count )
{
    FAULT( "cudaGetDeviceCount" )
    *count = st.devices;
    return st.devices ? cudaSuccess : error( cudaErrorNoDevice );
}
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * p, int d )
{
    FAULT( "cudaGetDeviceProperties" )
    if ( d < 0 || d >= st.devices )
        return error( cudaErrorInvalidDevice );
    memset( p, 0, sizeof( *p ) );
    snprintf( p->name, sizeof( p->name ), "device %d", d );
    p->totalGlobalMem = st.memory;
    p->sharedMemPerBlock = 49152;
    p->warpSize = 32;
    p->maxThreadsPerBlock = st.maxThreads;
    for ( int k = 0; k < 3; ++k ) {
        p->maxThreadsDim[k] = st.maxDim[k];
        p->maxGridSize[k] = st.maxGrid[k];
    }
    p->major = 7;
    p->minor = 5;
    p->asyncEngineCount = 2;
    p->multiProcessorCount = 1;
    return cudaSuccess;
}
cudaError_t cudaSetDevice( int d )
{
    FAULT( "cudaSetDevice" )
    if ( d < 0 || d >= st.devices )
        return error( cudaErrorInvalidDevice );
    currentDevice = d;
    return cudaSuccess;
}
cudaError_t cudaGetDevice( int * d )
{
    FAULT( "cudaGetDevice" )
    *d = currentDevice;
    return cudaSuccess;
}
cudaError_t cudaGetLastError( void )
{
    const cudaError_t e = lastError;
    lastError = cudaSuccess;
    return e;
}
cudaError_t cudaPeekAtLastError( void )
{
    return lastError;
}
cudaError_t cudaMemGetInfo( size_t * f, size_t * t )
{
    FAULT( "cudaMemGetInfo" )
    size_t used = 0;
    for ( auto & b : memory )
        if ( b.second.device == currentDevice )
            used += b.second.size;
    *t = st.memory;
    *f = st.memory - used;
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize( void )
{
    FAULT( "cudaDeviceSynchronize" )
    synchronizeDevice( currentDevice );
    return cudaSuccess;
}
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * s, unsigned int flags )
{
    FAULT( "cudaStreamCreate" )
    *s = new cudaEmuStream{ currentDevice, flags != cudaStreamNonBlocking, {} };
    liveStreams.insert( *s );
    return cudaSuccess;
}
cudaError_t cudaStreamCreate( cudaStream_t * s )
{
    return cudaStreamCreateWithFlags( s, cudaStreamDefault );
}
cudaError_t cudaStreamDestroy( cudaStream_t s )
{
    if ( !liveStreams.count( s ) ) {
        vp::fail( "a stream which does not exist is destroyed" );
        return error( cudaErrorInvalidResourceHandle );
    }
    // its work continues and is not ordered any more, keep it conservative: destroyed streams are treated as finished by the next synchronisation
    for ( Pending & p : s->pending )
        defaultStream[s->device].pending.push_back( p );
    liveStreams.erase( s );
    delete s;
    return cudaSuccess;
}
cudaError_t cudaStreamSynchronize( cudaStream_t s )
{
    FAULT( "cudaStreamSynchronize" )
    cudaEmuStream * t = get( s, "synchronisation" );
    if ( t == nullptr )
        return error( cudaErrorInvalidResourceHandle );
    if ( s == nullptr )
        synchronizeDefault();
    else
        t->pending.clear();
    return cudaSuccess;
}
cudaError_t cudaStreamQuery( cudaStream_t s )
{
    FAULT( "cudaStreamQuery" )
    cudaEmuStream * t = get( s, "query" );
    if ( t == nullptr )
        return error( cudaErrorInvalidResourceHandle );
    return t->pending.empty() ? cudaSuccess : error( cudaErrorNotReady );
}
cudaError_t cudaStreamAddCallback( cudaStream_t s, cudaStreamCallback_t callback, void * data, unsigned int )
{
    FAULT( "cudaStreamAddCallback" )
    if ( get( s, "callback" ) == nullptr )
        return error( cudaErrorInvalidResourceHandle );
    callback( s, cudaSuccess, data );
    return cudaSuccess;
}
cudaError_t cudaFree( void * p )
{
    if ( p == nullptr )
        return cudaSuccess;
    const auto i = memory.find( reinterpret_cast<uintptr_t>( p ) );
    if ( i == memory.end() ) {
        vp::fail( "device memory which is not allocated is released" );
        return error( cudaErrorInvalidDevicePointer );
    }
    synchronizeDevice( i->second.device );
    __asan_unpoison_memory_region( p, i->second.size );
    memory.erase( i );
    free( p );
    return cudaSuccess;
}
cudaError_t cudaFreeHost( void * p )
{
    if ( p == nullptr )
        return cudaSuccess;
    if ( !pinned.erase( p ) ) {
        vp::fail( "pinned memory which is not allocated is released" );
        return error( cudaErrorInvalidValue );
    }
    free( p );
    return cudaSuccess;
}
cudaError_t cudaMemcpy( void * d, const void * s, size_t n, cudaMemcpyKind kind )
{
    FAULT( "cudaMemcpy" )
    return copy( d, n, s, n, n, n ? 1 : 0, kind, defaults(), kind != cudaMemcpyDeviceToDevice );
}
cudaError_t cudaMemcpyAsync( void * d, const void * s, size_t n, cudaMemcpyKind kind, cudaStream_t stream )
{
    FAULT( "cudaMemcpyAsync" )
    cudaEmuStream * t = get( stream, "a copy" );
    if ( t == nullptr )
        return error( cudaErrorInvalidResourceHandle );
    return copy( d, n, s, n, n, n ? 1 : 0, kind, *t, false );
}
cudaError_t cudaMemcpy2D( void * d, size_t dp, const void * s, size_t sp, size_t w, size_t h, cudaMemcpyKind kind )
{
    FAULT( "cudaMemcpy2D" )
    return copy( d, dp, s, sp, w, h, kind, defaults(), kind != cudaMemcpyDeviceToDevice );
}
cudaError_t cudaMemcpy2DAsync( void * d, size_t dp, const void * s, size_t sp, size_t w, size_t h, cudaMemcpyKind kind, cudaStream_t stream )
{
    FAULT( "cudaMemcpy2DAsync" )
    cudaEmuStream * t = get( stream, "a copy" );
    if ( t == nullptr )
        return error( cudaErrorInvalidResourceHandle );
    return copy( d, dp, s, sp, w, h, kind, *t, false );
}
static cudaError_t set( void * p, int v, size_t n, cudaEmuStream & s )
{
    if ( n == 0 )
        return cudaSuccess;
    if ( !inDevice( p, n, "a fill of the device" ) )
        return error( cudaErrorInvalidValue );
    submit( s, Pending{ {}, { { reinterpret_cast<uintptr_t>( p ), reinterpret_cast<uintptr_t>( p ) + n } }, "a fill" } );
    Open o;
    memset( p, v, n );
    return cudaSuccess;
}
cudaError_t cudaMemset( void * p, int v, size_t n )
{
    FAULT( "cudaMemset" )
    return set( p, v, n, defaults() );
}
cudaError_t cudaMemsetAsync( void * p, int v, size_t n, cudaStream_t stream )
{
    FAULT( "cudaMemsetAsync" )
    cudaEmuStream * t = get( stream, "a fill" );
    if ( t == nullptr )
        return error( cudaErrorInvalidResourceHandle );
    return set( p, v, n, *t );
}

// ------------------------------------------------------------------------------------------------ cuFFT
static std::map<int, cudaEmuStream *> planStream;
cufftResult cufftPlan2d( cufftHandle * h, int nx, int ny, cufftType )
{
    if ( fault( "cufftPlan2d" ) )
        return CUFFT_ALLOC_FAILED;
    if ( nx <= 0 || ny <= 0 )
        return CUFFT_INVALID_SIZE;
    static int id = 0;
    *h = ++id;
    plan[*h] = { nx, ny };
    return CUFFT_SUCCESS;
}
cufftResult cufftDestroy( cufftHandle h )
{
    if ( !plan.erase( h ) ) {
        vp::fail( "a plan which does not exist is destroyed" );
        return CUFFT_INVALID_PLAN;
    }
    planStream.erase( h );
    return CUFFT_SUCCESS;
}
cufftResult cufftSetStream( cufftHandle h, cudaStream_t s )
{
    cudaEmuStream * t = get( s, "a transform" );
    if ( t == nullptr || !plan.count( h ) )
        return CUFFT_INVALID_VALUE;
    planStream[h] = t;
    return CUFFT_SUCCESS;
}
cufftResult cufftExecC2C( cufftHandle h, cufftComplex * in, cufftComplex * out, int direction )
{
    if ( fault( "cufftExecC2C" ) )
        return CUFFT_EXEC_FAILED;
    if ( !plan.count( h ) )
        return CUFFT_INVALID_PLAN;
    const size_t nx = size_t( plan[h].first ), ny = size_t( plan[h].second ), n = nx * ny; // ny is the dimension which changes fastest
    if ( !inDevice( in, n * sizeof( cufftComplex ), "a transform" ) || !inDevice( out, n * sizeof( cufftComplex ), "a transform" ) )
        return CUFFT_INVALID_VALUE;
    Pending p;
    p.what = "a transform";
    p.reads.push_back( { reinterpret_cast<uintptr_t>( in ), reinterpret_cast<uintptr_t>( in + n ) } );
    p.writes.push_back( { reinterpret_cast<uintptr_t>( out ), reinterpret_cast<uintptr_t>( out + n ) } );
    submit( planStream.count( h ) ? *planStream[h] : defaults(), std::move( p ) );
    Open o;
    std::vector<std::complex<double>> v( n ), r( n );
    for ( size_t i = 0; i < n; ++i )
        v[i] = { in[i].x, in[i].y };
    for ( size_t i = 0; i < nx; ++i ) // rows
        for ( size_t k = 0; k < ny; ++k ) {
            std::complex<double> sum = 0;
            for ( size_t j = 0; j < ny; ++j )
                sum += v[i * ny + j] * std::polar( 1.0, direction * 2 * M_PI * double( j * k % ny ) / double( ny ) );
            r[i * ny + k] = sum;
        }
    for ( size_t k = 0; k < ny; ++k )
        for ( size_t l = 0; l < nx; ++l ) {
            std::complex<double> sum = 0;
            for ( size_t i = 0; i < nx; ++i )
                sum += r[i * ny + k] * std::polar( 1.0, direction * 2 * M_PI * double( i * l % nx ) / double( nx ) );
            v[l * ny + k] = sum;
        }
    for ( size_t i = 0; i < n; ++i ) {
        out[i].x = float( v[i].real() );
        out[i].y = float( v[i].imag() );
    }
    return CUFFT_SUCCESS;
}

// ------------------------------------------------------------------------------------------------ accesses of code compiled with --param asan-instrumentation-with-call-threshold=0
#define HOOK( N )                                                                                                                                                       \
    void __asan_load##N( uintptr_t a )                                                                                                                                  \
    {                                                                                                                                                                   \
        access( a, N, false );                                                                                                                                          \
    }                                                                                                                                                                   \
    void __asan_store##N( uintptr_t a )                                                                                                                                 \
    {                                                                                                                                                                   \
        access( a, N, true );                                                                                                                                           \
    }
HOOK( 1 )
HOOK( 2 )
HOOK( 4 )
HOOK( 8 )
HOOK( 16 )
void __asan_loadN( uintptr_t a, size_t n )
{
    access( a, n, false );
}
void __asan_storeN( uintptr_t a, size_t n )
{
    access( a, n, true );
}
}
