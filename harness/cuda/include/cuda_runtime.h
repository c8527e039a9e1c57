// A stand-in for the CUDA runtime: device code is compiled as C++ and executed on the host by emu.cpp, which checks every access of it.
// tools/cucc.py turns kernel<<<...>>>( ... ) into CUDA_EMU_LAUNCH( kernel, ... )( ... ).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __constant__ static const

struct dim3
{
    unsigned int x, y, z;
    constexpr dim3( unsigned int x_ = 1, unsigned int y_ = 1, unsigned int z_ = 1 )
        : x( x_ )
        , y( y_ )
        , z( z_ )
    {}
};
struct uint3
{
    unsigned int x, y, z;
};

typedef enum cudaError
{
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidConfiguration = 9,
    cudaErrorInvalidDevicePointer = 17,
    cudaErrorNoDevice = 100,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidResourceHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorUnknown = 999
} cudaError_t;

typedef enum cudaMemcpyKind
{
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
} cudaMemcpyKind;

#define cudaStreamDefault 0x0
#define cudaStreamNonBlocking 0x1

struct cudaEmuStream;
typedef cudaEmuStream * cudaStream_t;
typedef void ( *cudaStreamCallback_t )( cudaStream_t stream, cudaError_t status, void * userData );

struct cudaDeviceProp
{
    char name[256];
    size_t totalGlobalMem;
    size_t sharedMemPerBlock;
    int warpSize;
    int maxThreadsPerBlock;
    int maxThreadsDim[3];
    int maxGridSize[3];
    int major, minor;
    int asyncEngineCount;
    int multiProcessorCount;
};

extern "C" {
cudaError_t cudaGetDeviceCount( int * count );
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * prop, int device );
cudaError_t cudaSetDevice( int device );
cudaError_t cudaGetDevice( int * device );
cudaError_t cudaGetLastError( void );
cudaError_t cudaPeekAtLastError( void );
cudaError_t cudaMemGetInfo( size_t * freeSize, size_t * totalSize );
cudaError_t cudaDeviceSynchronize( void );
cudaError_t cudaStreamCreate( cudaStream_t * stream );
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int flags );
cudaError_t cudaStreamDestroy( cudaStream_t stream );
cudaError_t cudaStreamSynchronize( cudaStream_t stream );
cudaError_t cudaStreamQuery( cudaStream_t stream );
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * userData, unsigned int flags );
cudaError_t cudaFree( void * pointer );
cudaError_t cudaFreeHost( void * pointer );
cudaError_t cudaMemcpy( void * dst, const void * src, size_t count, cudaMemcpyKind kind );
cudaError_t cudaMemcpyAsync( void * dst, const void * src, size_t count, cudaMemcpyKind kind, cudaStream_t stream );
cudaError_t cudaMemcpy2D( void * dst, size_t dpitch, const void * src, size_t spitch, size_t width, size_t height, cudaMemcpyKind kind );
cudaError_t cudaMemcpy2DAsync( void * dst, size_t dpitch, const void * src, size_t spitch, size_t width, size_t height, cudaMemcpyKind kind, cudaStream_t stream );
cudaError_t cudaMemset( void * pointer, int value, size_t count );
cudaError_t cudaMemsetAsync( void * pointer, int value, size_t count, cudaStream_t stream );
}

namespace cudaEmu
{
    // variables of device code
    struct Builtin
    {
        uint3 threadIdx, blockIdx;
        dim3 blockDim, gridDim;
    };
    extern Builtin builtin;

    cudaError_t mallocDevice( void ** pointer, size_t size );
    cudaError_t mallocHost( void ** pointer, size_t size );
    void atomicAccess( const void * pointer, size_t size );

    // begin() validates the configuration; next() moves to the next device thread
    bool begin( dim3 grid, dim3 block, size_t shared, cudaStream_t stream );
    bool next();
    void end();

    template <typename Kernel>
    struct Launch
    {
        Kernel kernel;
        dim3 grid, block;
        size_t shared;
        cudaStream_t stream;

        template <typename... Args>
        void operator()( Args... args )
        {
            if ( !begin( grid, block, shared, stream ) )
                return;
            while ( next() )
                kernel( args... );
            end();
        }
    };
    template <typename Kernel>
    Launch<Kernel> launch( Kernel kernel, dim3 grid, dim3 block, size_t shared = 0, cudaStream_t stream = nullptr )
    {
        return Launch<Kernel>{ kernel, grid, block, shared, stream };
    }
}

#define threadIdx cudaEmu::builtin.threadIdx
#define blockIdx cudaEmu::builtin.blockIdx
#define blockDim cudaEmu::builtin.blockDim
#define gridDim cudaEmu::builtin.gridDim

template <typename T>
cudaError_t cudaMalloc( T ** pointer, size_t size )
{
    void * p = nullptr;
    const cudaError_t e = cudaEmu::mallocDevice( &p, size );
    if ( e == cudaSuccess )
        *pointer = static_cast<T *>( p );
    return e;
}
template <typename T>
cudaError_t cudaMallocHost( T ** pointer, size_t size )
{
    void * p = nullptr;
    const cudaError_t e = cudaEmu::mallocHost( &p, size );
    if ( e == cudaSuccess )
        *pointer = static_cast<T *>( p );
    return e;
}

#define CUDA_EMU_ATOMIC( NAME, OP )                                                                                                                                     \
    template <typename T, typename U>                                                                                                                                   \
    __attribute__( ( no_sanitize_address ) ) T NAME( T * p, U v )                                                                                                       \
    {                                                                                                                                                                   \
        cudaEmu::atomicAccess( p, sizeof( T ) );                                                                                                                        \
        const T old = *p;                                                                                                                                               \
        *p = static_cast<T>( OP );                                                                                                                                      \
        return old;                                                                                                                                                     \
    }
CUDA_EMU_ATOMIC( atomicAdd, old + static_cast<T>( v ) )
CUDA_EMU_ATOMIC( atomicSub, old - static_cast<T>( v ) )
CUDA_EMU_ATOMIC( atomicAnd, old & static_cast<T>( v ) )
CUDA_EMU_ATOMIC( atomicOr, old | static_cast<T>( v ) )
CUDA_EMU_ATOMIC( atomicXor, old ^ static_cast<T>( v ) )
CUDA_EMU_ATOMIC( atomicMin, std::min( old, static_cast<T>( v ) ) )
CUDA_EMU_ATOMIC( atomicMax, std::max( old, static_cast<T>( v ) ) )
CUDA_EMU_ATOMIC( atomicExch, v )
