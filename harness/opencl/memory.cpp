// Decides the resources of the OpenCL backend: the calls of the library to OpenCL are intercepted to follow every device object and to make any one of them fail.
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include "opencl/opencl_types.h"
#include "vp.h"
#include <algorithm>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <set>
#include <unistd.h>

using namespace vp;
using penguinV::Image;
typedef std::vector<uint8_t> Bytes;

extern "C" const char * __lsan_default_suppressions();
extern "C" const char * __lsan_default_suppressions() // the OpenCL implementation keeps memory of its own
{
    return "leak:libpocl\nleak:libOpenCL\nleak:libLLVM\nleak:libclang\n";
}

// ------------------------------------------------------------------------------------------------ interception
namespace cl
{
    struct Block
    {
        cl_mem parent;
        size_t origin, size;
    };
    std::map<cl_mem, Block> memory;
    std::multiset<void *> objects; // kernels, events, programs, queues, contexts
    long countdown = -1; // the call to fail
    long calls = 0;
    bool misuse = false;

    bool failing()
    {
        ++calls;
        return countdown > 0 && --countdown == 0;
    }
    template <typename F>
    F real( F, const char * name )
    {
        F f = reinterpret_cast<F>( dlsym( RTLD_NEXT, name ) );
        if ( !f ) {
            fprintf( stderr, "no %s\n", name );
            abort();
        }
        return f;
    }
    void created( void * o )
    {
        if ( o )
            objects.insert( o );
    }
    void released( void * o )
    {
        auto i = objects.find( o );
        if ( i == objects.end() )
            misuse = true;
        else
            objects.erase( i );
    }
}
#define REAL( f ) static const auto next = cl::real( &f, #f );
#define FAIL_STATUS                                                                                                                                                     \
    if ( cl::failing() )                                                                                                                                                \
        return CL_OUT_OF_RESOURCES;
#define FAIL_POINTER                                                                                                                                                    \
    if ( cl::failing() ) {                                                                                                                                              \
        if ( e )                                                                                                                                                        \
            *e = CL_OUT_OF_RESOURCES;                                                                                                                                   \
        return nullptr;                                                                                                                                                 \
    }

extern "C"
{
#pragma GCC visibility push( default )
cl_mem clCreateBuffer( cl_context c, cl_mem_flags f, size_t s, void * p, cl_int * e )
{
    REAL( clCreateBuffer )
    FAIL_POINTER
    cl_mem m = next( c, f, s, p, e );
    if ( m )
        cl::memory[m] = cl::Block{ nullptr, 0, s };
    return m;
}
cl_mem clCreateSubBuffer( cl_mem parent, cl_mem_flags f, cl_buffer_create_type t, const void * info, cl_int * e )
{
    REAL( clCreateSubBuffer )
    FAIL_POINTER
    cl_mem m = next( parent, f, t, info, e );
    if ( m ) {
        const cl_buffer_region * r = static_cast<const cl_buffer_region *>( info );
        cl::memory[m] = cl::Block{ parent, r->origin, r->size };
    }
    return m;
}
cl_int clReleaseMemObject( cl_mem m )
{
    REAL( clReleaseMemObject )
    if ( !cl::memory.erase( m ) )
        cl::misuse = true;
    return next( m );
}
cl_kernel clCreateKernel( cl_program p, const char * n, cl_int * e )
{
    REAL( clCreateKernel )
    FAIL_POINTER
    cl_kernel k = next( p, n, e );
    cl::created( k );
    return k;
}
cl_int clReleaseKernel( cl_kernel k )
{
    REAL( clReleaseKernel )
    cl::released( k );
    return next( k );
}
cl_program clCreateProgramWithSource( cl_context c, cl_uint n, const char ** s, const size_t * l, cl_int * e )
{
    REAL( clCreateProgramWithSource )
    FAIL_POINTER
    cl_program p = next( c, n, s, l, e );
    cl::created( p );
    return p;
}
cl_int clBuildProgram( cl_program p, cl_uint n, const cl_device_id * d, const char * o, void( CL_CALLBACK * f )( cl_program, void * ), void * u )
{
    REAL( clBuildProgram )
    FAIL_STATUS
    return next( p, n, d, o, f, u );
}
cl_int clReleaseProgram( cl_program p )
{
    REAL( clReleaseProgram )
    cl::released( p );
    return next( p );
}
cl_context clCreateContext( const cl_context_properties * p, cl_uint n, const cl_device_id * d, void( CL_CALLBACK * f )( const char *, const void *, size_t, void * ), void * u,
                            cl_int * e )
{
    REAL( clCreateContext )
    FAIL_POINTER
    cl_context c = next( p, n, d, f, u, e );
    cl::created( c );
    return c;
}
cl_int clReleaseContext( cl_context c )
{
    REAL( clReleaseContext )
    cl::released( c );
    return next( c );
}
cl_command_queue clCreateCommandQueueWithProperties( cl_context c, cl_device_id d, const cl_queue_properties * p, cl_int * e )
{
    REAL( clCreateCommandQueueWithProperties )
    FAIL_POINTER
    cl_command_queue q = next( c, d, p, e );
    cl::created( q );
    return q;
}
cl_int clReleaseCommandQueue( cl_command_queue q )
{
    REAL( clReleaseCommandQueue )
    cl::released( q );
    return next( q );
}
cl_int clEnqueueNDRangeKernel( cl_command_queue q, cl_kernel k, cl_uint d, const size_t * o, const size_t * g, const size_t * l, cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueNDRangeKernel )
    FAIL_STATUS
    const cl_int r = next( q, k, d, o, g, l, n, w, e );
    if ( r == CL_SUCCESS && e )
        cl::created( *e );
    return r;
}
cl_int clWaitForEvents( cl_uint n, const cl_event * e )
{
    REAL( clWaitForEvents )
    if ( cl::failing() ) {
        next( n, e );
        return CL_OUT_OF_RESOURCES;
    }
    return next( n, e );
}
cl_int clReleaseEvent( cl_event e )
{
    REAL( clReleaseEvent )
    cl::released( e );
    return next( e );
}
cl_int clSetKernelArg( cl_kernel k, cl_uint i, size_t s, const void * v )
{
    REAL( clSetKernelArg )
    FAIL_STATUS
    return next( k, i, s, v );
}
cl_int clGetKernelWorkGroupInfo( cl_kernel k, cl_device_id d, cl_kernel_work_group_info i, size_t s, void * v, size_t * r )
{
    REAL( clGetKernelWorkGroupInfo )
    FAIL_STATUS
    return next( k, d, i, s, v, r );
}
cl_int clEnqueueWriteBuffer( cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t s, const void * p, cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueWriteBuffer )
    FAIL_STATUS
    return next( q, m, b, o, s, p, n, w, e );
}
cl_int clEnqueueReadBuffer( cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t s, void * p, cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueReadBuffer )
    FAIL_STATUS
    return next( q, m, b, o, s, p, n, w, e );
}
cl_int clEnqueueCopyBuffer( cl_command_queue q, cl_mem a, cl_mem b, size_t x, size_t y, size_t s, cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueCopyBuffer )
    FAIL_STATUS
    return next( q, a, b, x, y, s, n, w, e );
}
cl_int clEnqueueFillBuffer( cl_command_queue q, cl_mem m, const void * p, size_t ps, size_t o, size_t s, cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueFillBuffer )
    FAIL_STATUS
    return next( q, m, p, ps, o, s, n, w, e );
}
cl_int clEnqueueWriteBufferRect( cl_command_queue q, cl_mem m, cl_bool b, const size_t * x, const size_t * y, const size_t * r, size_t a, size_t c, size_t d, size_t f,
                                 const void * p, cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueWriteBufferRect )
    FAIL_STATUS
    return next( q, m, b, x, y, r, a, c, d, f, p, n, w, e );
}
cl_int clEnqueueReadBufferRect( cl_command_queue q, cl_mem m, cl_bool b, const size_t * x, const size_t * y, const size_t * r, size_t a, size_t c, size_t d, size_t f, void * p,
                                cl_uint n, const cl_event * w, cl_event * e )
{
    REAL( clEnqueueReadBufferRect )
    FAIL_STATUS
    return next( q, m, b, x, y, r, a, c, d, f, p, n, w, e );
}
cl_int clFinish( cl_command_queue q )
{
    REAL( clFinish )
    FAIL_STATUS
    return next( q );
}
cl_int clGetDeviceInfo( cl_device_id d, cl_device_info i, size_t s, void * v, size_t * r )
{
    REAL( clGetDeviceInfo )
    FAIL_STATUS
    return next( d, i, s, v, r );
}
cl_int clGetDeviceIDs( cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id * d, cl_uint * r )
{
    REAL( clGetDeviceIDs )
    FAIL_STATUS
    return next( p, t, n, d, r );
}
cl_int clGetPlatformIDs( cl_uint n, cl_platform_id * p, cl_uint * r )
{
    REAL( clGetPlatformIDs )
    FAIL_STATUS
    return next( n, p, r );
}
#pragma GCC visibility pop
}

// ------------------------------------------------------------------------------------------------ helpers
static multiCL::OpenCLDeviceManager & manager()
{
    return multiCL::OpenCLDeviceManager::instance();
}
static void put( cl_mem m, const Bytes & v )
{
    multiCL::openCLCheck( clEnqueueWriteBuffer( manager().device().queue()(), m, CL_TRUE, 0, v.size(), v.data(), 0, nullptr, nullptr ) );
}
static Bytes get( cl_mem m, size_t size )
{
    Bytes v( size );
    multiCL::openCLCheck( clEnqueueReadBuffer( manager().device().queue()(), m, CL_TRUE, 0, size, v.data(), 0, nullptr, nullptr ) );
    return v;
}
static cl_mem mem( const Image & i )
{
    return reinterpret_cast<cl_mem>( const_cast<uint8_t *>( i.data() ) );
}
static size_t bytes( const Image & i )
{
    return size_t( i.rowSize() ) * i.height();
}
static Bytes pattern( size_t size, uint32_t salt )
{
    Bytes v( size );
    for ( size_t i = 0; i < size; ++i ) {
        uint32_t h = uint32_t( i + 1 ) * 2654435761u ^ ( salt + 1 ) * 0x9E3779B9u;
        v[i] = uint8_t( h >> 13 );
    }
    return v;
}

// ------------------------------------------------------------------------------------------------ allocator
static void allocatorSequences()
{
    const size_t sizes[] = { 1, 1000, 1024, 1025, 3000, 4095 };
    const size_t arenas[] = { 0, 1000, 4096, 5000, 8192, 11264 };
    // operations: 0..5 allocate, 6 free oldest, 7 free newest, 8 free the middle one, 9.. reserve other sizes
    const int OPS = 12;
    const int depth = ctx().thorough ? 6 : 4;
    for ( size_t arena : arenas )
        for ( int first = 0; first < 6; ++first )
            for ( int second = 0; second < OPS; ++second ) {
                if ( !next() )
                    continue;
                label( "allocator with %zu bytes, operations %d %d ..", arena, first, second );
                int total = 1;
                for ( int i = 2; i < depth; ++i )
                    total *= OPS;
                for ( int code = 0; code < total; ++code ) {
                    phase( "code %d", code );
                    ++ctx().calls;
                    const std::map<cl_mem, cl::Block> before = cl::memory;
                    {
                        multiCL::MemoryAllocator a( manager().device().context()(), manager().device().deviceId(), 1 << 20 );
                        if ( arena )
                            a.reserve( arena );
                        struct Live
                        {
                            cl_mem m;
                            size_t size;
                            uint32_t salt;
                        };
                        std::vector<Live> live;
                        int rest = code;
                        for ( int step = 0; step < depth; ++step ) {
                            const int op = step == 0 ? first : step == 1 ? second : rest % OPS;
                            if ( step > 1 )
                                rest /= OPS;
                            if ( op < 6 ) {
                                Live l{ nullptr, sizes[op], uint32_t( step + code ) };
                                if ( op == 4 ) { // other type
                                    l.size = 3000 / 4 * 4;
                                    l.m = a.allocate<uint32_t>( 750 );
                                }
                                else
                                    l.m = a.allocate<uint8_t>( sizes[op] );
                                for ( const Live & o : live )
                                    expect( o.m != l.m, "block in use was given again" );
                                auto b = cl::memory.find( l.m );
                                expect( b != cl::memory.end() && b->second.size >= l.size, "block is smaller than requested" );
                                if ( b != cl::memory.end() && b->second.parent )
                                    for ( const Live & o : live ) {
                                        const cl::Block & p = cl::memory[o.m];
                                        if ( p.parent == b->second.parent )
                                            expect( p.origin + p.size <= b->second.origin || b->second.origin + b->second.size <= p.origin, "blocks in use overlap" );
                                    }
                                put( l.m, pattern( l.size, l.salt ) );
                                live.push_back( l );
                            }
                            else if ( op < 9 ) {
                                if ( live.empty() )
                                    continue;
                                const size_t k = op == 6 ? 0 : op == 7 ? live.size() - 1 : live.size() / 2;
                                a.free( live[k].m );
                                live.erase( live.begin() + long( k ) );
                            }
                            else {
                                const size_t size = op == 9 ? 2048 : op == 10 ? 8192 : ( size_t( 2 ) << 20 );
                                bool arenaUsed = false;
                                for ( const Live & o : live )
                                    arenaUsed = arenaUsed || cl::memory[o.m].parent;
                                bool threw = false;
                                try {
                                    a.reserve( size );
                                }
                                catch ( const std::exception & ) {
                                    threw = true;
                                    ++ctx().refused;
                                }
                                if ( op == 11 )
                                    expect( threw, "more than available memory was reserved" );
                                else if ( !arenaUsed )
                                    expect( !threw, "reserving was refused" );
                            }
                            for ( const Live & o : live )
                                expect( get( o.m, o.size ) == pattern( o.size, o.salt ), "block in use changed its content" );
                            ++ctx().compared;
                        }
                        for ( const Live & o : live )
                            a.free( o.m );
                    }
                    expect( cl::memory.size() == before.size(), "device memory was not released with the allocator" );
                    expect( !cl::misuse, "a device object was released which does not exist" );
                }
            }
    // sizes which cannot be counted in bytes
    for ( size_t arena : { 0u, 4096u } ) {
        if ( !next() )
            continue;
        label( "huge blocks, arena of %zu bytes", arena );
        multiCL::MemoryAllocator a( manager().device().context()(), manager().device().deviceId(), 1 << 20 );
        if ( arena )
            a.reserve( arena );
        const auto before = cl::memory.size();
        for ( size_t extra = 0; extra < 300; ++extra )
            for ( int type = 0; type < 3; ++type ) {
                phase( "type %d, %zu elements above the limit", type, extra + 1 );
                ++ctx().calls;
                try {
                    type == 0 ? a.allocate<uint16_t>( SIZE_MAX / 2 + 1 + extra ) :
                    type == 1 ? a.allocate<uint32_t>( SIZE_MAX / 4 + 1 + extra ) : a.allocate<double>( SIZE_MAX / 8 + 1 + extra );
                    fail( "a block is smaller than required" );
                }
                catch ( const std::exception & ) {
                    ++ctx().refused;
                }
                expect( cl::memory.size() == before, "a refused request takes memory" );
                ++ctx().compared;
            }
    }
    // everything is usable again after all blocks were freed
    for ( size_t arena : { 1024u, 2048u, 4096u, 5000u, 8192u, 12288u } ) {
        if ( !next() )
            continue;
        label( "reuse of arena of %zu bytes", arena );
        for ( int n = 1; n <= 8; ++n )
            for ( int order = 0; order < 3; ++order ) {
                phase( "%d blocks order %d", n, order );
                ++ctx().calls;
                multiCL::MemoryAllocator a( manager().device().context()(), manager().device().deviceId(), 1 << 20 );
                a.reserve( arena );
                size_t half = 1024;
                while ( half * 2 < arena )
                    half *= 2;
                size_t fit[2] = { 0, 0 };
                for ( int round = 0; round < 2; ++round ) {
                    std::vector<cl_mem> v;
                    for ( int i = 0; i < n; ++i ) {
                        v.push_back( a.allocate<uint8_t>( 900 ) );
                        fit[round] += cl::memory[v.back()].parent != nullptr;
                    }
                    if ( order == 1 )
                        std::reverse( v.begin(), v.end() );
                    if ( order == 2 && v.size() > 2 )
                        std::swap( v[0], v[v.size() / 2] );
                    for ( cl_mem m : v )
                        a.free( m );
                    if ( half < arena ) {
                        cl_mem m = a.allocate<uint8_t>( half );
                        expect( cl::memory[m].parent != nullptr, "freed memory cannot be used again" );
                        a.free( m );
                    }
                }
                expect( fit[0] == fit[1], "freed memory cannot be used again" );
                expect( size_t( n ) > arena / 1024 || fit[0] == size_t( n ) || arena == 1024, "prepared memory is not used" );
                ++ctx().compared;
            }
    }
}

// ------------------------------------------------------------------------------------------------ images as values
struct Model
{
    uint32_t w = 0, h = 0;
    uint8_t cc = 1, al = 1;
    bool known = false;
    Bytes d;
    uint32_t row() const
    {
        return w ? ( w * cc + al - 1 ) / al * al : 0;
    }
    void resize( uint32_t w_, uint32_t h_ )
    {
        if ( w_ == w && h_ == h )
            return;
        w = w_;
        h = h_;
        known = false;
        d.clear();
    }
    void clear()
    {
        w = h = 0;
        known = false;
        d.clear();
    }
};
static const int IMAGE_OPS = 19;
static void apply( int op, Image im[2], Model m[2], int step )
{
    const int a = op & 1, b = 1 - a;
    switch ( op ) {
    case 0:
    case 1:
        im[a] = penguinV::ImageOpenCL().generate( 2, 2 );
        m[a] = Model();
        m[a].resize( 2, 2 );
        break;
    case 2:
    case 3:
        im[a] = penguinV::ImageOpenCL( 3, 2, 3, 4 );
        m[a] = Model();
        m[a].cc = 3;
        m[a].al = 4;
        m[a].resize( 3, 2 );
        break;
    case 4:
    case 5:
        if ( m[a].w ) {
            m[a].d = pattern( size_t( m[a].row() ) * m[a].h, uint32_t( step ) );
            m[a].known = true;
            put( mem( im[a] ), m[a].d );
        }
        break;
    case 6:
    case 7:
        im[a].fill( uint8_t( 40 + step ) );
        if ( m[a].w ) {
            m[a].d.assign( size_t( m[a].row() ) * m[a].h, uint8_t( 40 + step ) );
            m[a].known = true;
        }
        break;
    case 8:
    case 9:
        im[a] = im[b];
        m[a] = m[b];
        break;
    case 10: {
        Image t( im[0] );
        im[1].swap( t );
        m[1] = m[0];
        break;
    }
    case 11: {
        penguinV::ImageOpenCL t;
        t = penguinV::ImageOpenCL( 1, 1 );
        t.fill( 9 );
        penguinV::ImageOpenCL u( t );
        penguinV::ImageOpenCL v( std::move( t ) );
        u.fill( 8 );
        im[0] = v;
        im[1] = u;
        m[0] = Model();
        m[0].resize( 1, 1 );
        m[0].known = true;
        m[1] = m[0];
        m[0].d.assign( 1, 9 );
        m[1].d.assign( 1, 8 );
        break;
    }
    case 12:
        im[0].resize( 3, 2 );
        m[0].resize( 3, 2 );
        break;
    case 13:
        im[1].clear();
        m[1].clear();
        break;
    case 14:
        im[0].swap( im[1] );
        std::swap( m[0], m[1] );
        break;
    case 15:
        im[1].setAlignment( 8 );
        if ( m[1].al != 8 ) {
            m[1].clear();
            m[1].al = 8;
        }
        break;
    case 16: {
        Image t( std::move( im[0] ) );
        im[0] = std::move( t );
        break;
    }
    case 17:
        if ( im[1].type() == im[0].type() ) {
            im[1].copy( im[0] );
            m[1] = m[0];
        }
        break;
    case 18:
        im[0].setColorCount( 3 );
        if ( m[0].cc != 3 ) {
            m[0].clear();
            m[0].cc = 3;
        }
        break;
    }
}

static void imageSequences()
{
    const int depth = ctx().thorough ? 4 : 3;
    for ( int arena = 0; arena < 2; ++arena )
        for ( int first = 0; first < IMAGE_OPS; ++first ) {
            for ( int second = 0; second < IMAGE_OPS; ++second ) {
                if ( !next() )
                    continue;
                if ( arena ) {
                    multiCL::MemoryManager::memory().reserve( 65536 );
                }
                label( "device images%s, operations %d %d ..", arena ? " in prepared memory" : "", first, second );
                int total = 1;
                for ( int i = 2; i < depth; ++i )
                    total *= IMAGE_OPS;
                for ( int code = 0; code < total; ++code ) {
                    phase( "code %d", code );
                    const size_t before = cl::memory.size();
                    {
                        Image im[2] = { penguinV::ImageOpenCL().generate(), penguinV::ImageOpenCL().generate() };
                        Model m[2];
                        int rest = code;
                        for ( int step = 0; step < depth; ++step ) {
                            const int op = step == 0 ? first : step == 1 ? second : rest % IMAGE_OPS;
                            if ( step > 1 )
                                rest /= IMAGE_OPS;
                            ++ctx().calls;
                            apply( op, im, m, step );
                            for ( int k = 0; k < 2; ++k ) {
                                if ( im[k].type() != 3 || im[k].width() != m[k].w || im[k].height() != m[k].h || im[k].colorCount() != m[k].cc || im[k].alignment() != m[k].al
                                     || im[k].rowSize() != m[k].row() || im[k].empty() != ( m[k].w == 0 ) )
                                    fail( "image %d after operation %d is %ux%ux%u alignment %u type %u, expected %ux%ux%u alignment %u type 3", k, op, im[k].width(), im[k].height(),
                                          im[k].colorCount(), im[k].alignment(), im[k].type(), m[k].w, m[k].h, m[k].cc, m[k].al );
                                else if ( m[k].known && get( mem( im[k] ), bytes( im[k] ) ) != m[k].d )
                                    fail( "image %d has a wrong content after operation %d", k, op );
                            }
                            if ( !im[0].empty() && im[0].data() == im[1].data() )
                                fail( "two images share their memory after operation %d", op );
                            ++ctx().compared;
                        }
                    }
                    if ( cl::memory.size() != before )
                        fail( "%zd device buffers were left", ssize_t( cl::memory.size() ) - ssize_t( before ) );
                    expect( !cl::misuse, "a device object was released which does not exist" );
                }
            }
        }
}

// ------------------------------------------------------------------------------------------------ values and arrays
static void typeSequences()
{
    const int OPS = 10;
    for ( int first = 0; first < OPS; ++first ) {
        if ( !next() )
            continue;
        label( "arrays and values, operations %d ..", first );
        for ( int code = 0; code < OPS * OPS * ( ctx().thorough ? OPS : 1 ); ++code ) {
            phase( "code %d", code );
            const size_t before = cl::memory.size();
            {
                multiCL::Array<uint32_t> a, b;
                multiCL::Type<uint32_t> t( 5u ), u;
                std::vector<uint32_t> ma, mb;
                uint32_t mt = 5, mu = 0;
                bool ka = true, kb = true, ku = false; // content known
                int rest = code;
                for ( int step = 0; step < ( ctx().thorough ? 4 : 3 ); ++step ) {
                    const int op = step == 0 ? first : rest % OPS;
                    if ( step )
                        rest /= OPS;
                    ++ctx().calls;
                    const std::vector<uint32_t> v( size_t( 1 + step ), uint32_t( 1000 + step ) );
                    switch ( op ) {
                    case 0:
                        a = v;
                        ma = v;
                        ka = true;
                        break;
                    case 1:
                        b = multiCL::Array<uint32_t>( v );
                        mb = v;
                        kb = true;
                        break;
                    case 2:
                        a.resize( 2 );
                        ka = ka && ma.size() == 2;
                        ma.resize( 2 );
                        break;
                    case 3:
                        a.resize( 0 );
                        ma.clear();
                        ka = true;
                        break;
                    case 4:
                        b = std::move( a ); // exchanges the content
                        std::swap( ma, mb );
                        std::swap( ka, kb );
                        break;
                    case 5:
                        a = std::vector<uint32_t>();
                        ma.clear();
                        ka = true;
                        break;
                    case 6:
                        t = uint32_t( 70 + step );
                        mt = uint32_t( 70 + step );
                        break;
                    case 7:
                        u = std::move( t );
                        std::swap( mt, mu );
                        if ( !ku ) { // t has unknown content now
                            t = uint32_t( 3 );
                            mt = 3;
                        }
                        ku = true;
                        break;
                    case 8:
                        b = multiCL::Array<uint32_t>( size_t( 3 ) );
                        mb.assign( 3, 0 );
                        kb = false;
                        break;
                    case 9: {
                        bool threw = false;
                        try {
                            a = static_cast<const multiCL::Array<uint32_t> &>( b );
                        }
                        catch ( const std::exception & ) {
                            threw = true;
                        }
                        expect( threw, "copy of an array was accepted" );
                        break;
                    }
                    }
                    expect( a.size() == ma.size() && b.size() == mb.size() && a.empty() == ma.empty() && b.empty() == mb.empty(), "wrong size of array" );
                    if ( ka )
                        expect( a.get() == ma, "wrong content of array" );
                    if ( kb )
                        expect( b.get() == mb, "wrong content of array" );
                    expect( t.get() == mt && ( !ku || u.get() == mu ), "wrong value" );
                    ++ctx().compared;
                }
            }
            expect( cl::memory.size() == before, "device buffers were left" );
            expect( !cl::misuse, "a device object was released which does not exist" );
        }
    }
}

// ------------------------------------------------------------------------------------------------ failures
struct Call
{
    const char * name;
    std::function<void( Image & a, Image & b, Image & out, Bytes & result )> run;
};
static void keep( Bytes & r, const std::vector<uint32_t> & v )
{
    for ( uint32_t x : v )
        r.push_back( uint8_t( x ) );
}
static void keep( Bytes & r, const Image & i )
{
    if ( !i.empty() ) {
        const Bytes v = get( mem( i ), bytes( i ) );
        r.insert( r.end(), v.begin(), v.end() );
    }
}
#define RESULT( F, ... ) { #F, []( Image & a, Image & b, Image & out, Bytes & result ) { (void)a; (void)b; (void)out; const Image r = Image_Function_OpenCL::F( __VA_ARGS__ ); keep( result, r ); } }
#define INTO( F, ... ) { #F, []( Image & a, Image & b, Image & out, Bytes & result ) { (void)a; (void)b; (void)out; Image_Function_OpenCL::F( __VA_ARGS__ ); keep( result, out ); } }
static std::vector<Call> allCalls()
{
    static const std::vector<uint8_t> table( 256, 3 );
    static const std::vector<uint32_t> px( 2, 1 );
    return { RESULT( AbsoluteDifference, a, b ),
             RESULT( Subtract, a, b ),
             INTO( Maximum, a, b, out ),
             RESULT( ConvertToRgb, a ),
             INTO( ConvertToGrayScale, a, out ),
             RESULT( Copy, a, 0, 0, 1, 2 ),
             INTO( Copy, a, out ),
             RESULT( ExtractChannel, a, 0 ),
             INTO( Fill, out, 0, 0, 1, 1, 77 ),
             INTO( Fill, out, 78 ),
             RESULT( Flip, a, true, false ),
             RESULT( GammaCorrection, a, 1.0, 0.5 ),
             RESULT( Invert, a ),
             INTO( LookupTable, a, out, table ),
             RESULT( Normalize, a ),
             INTO( Threshold, a, out, 100 ),
             RESULT( Threshold, a, 50, 100 ),
             INTO( SetPixel, out, 1, 1, 5 ),
             INTO( SetPixel, out, px, px, 5 ),
             { "Histogram", []( Image & a, Image &, Image &, Bytes & r ) { keep( r, Image_Function_OpenCL::Histogram( a ) ); } },
             { "ProjectionProfile", []( Image & a, Image &, Image &, Bytes & r ) { keep( r, Image_Function_OpenCL::ProjectionProfile( a, true ) ); } },
             { "IsEqual", []( Image & a, Image & b, Image &, Bytes & r ) { r.push_back( Image_Function_OpenCL::IsEqual( a, b ) ); } },
             { "ConvertFromOpenCL",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   const Image h = Image_Function_OpenCL::ConvertFromOpenCL( a );
                   r.assign( h.data(), h.data() + bytes( h ) );
               } },
             { "ConvertFromOpenCL padded",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   Image h( 2, 2, 1, 4 );
                   h.fill( 0 );
                   Image_Function_OpenCL::ConvertFromOpenCL( a, h );
                   r.assign( h.data(), h.data() + bytes( h ) );
               } },
             { "ConvertToOpenCL",
               []( Image &, Image &, Image &, Bytes & r ) {
                   Image h( 2, 2, 1, 4 );
                   h.fill( 4 );
                   keep( r, Image_Function_OpenCL::ConvertToOpenCL( h ) );
               } },
             { "copy of image",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   const Image c( a );
                   keep( r, c );
               } },
             { "assignment of image",
               []( Image & a, Image &, Image & out, Bytes & r ) {
                   out = a;
                   keep( r, out );
               } },
             { "resize",
               []( Image &, Image &, Image & out, Bytes & r ) {
                   out.resize( 3, 3 );
                   out.fill( 1 );
                   keep( r, out );
               } },
             { "new image",
               []( Image &, Image &, Image &, Bytes & r ) {
                   penguinV::ImageOpenCL i( 2, 3 );
                   i.fill( 6 );
                   keep( r, i );
               } },
             { "value",
               []( Image &, Image &, Image &, Bytes & r ) {
                   multiCL::Type<uint32_t> t( 7u );
                   r.push_back( uint8_t( t.get() ) );
                   t = 8u;
                   r.push_back( uint8_t( t.get() ) );
               } },
             { "array",
               []( Image &, Image &, Image &, Bytes & r ) {
                   multiCL::Array<uint32_t> t( std::vector<uint32_t>( 3, 9 ) );
                   keep( r, t.get() );
                   t = std::vector<uint32_t>( 2, 8 );
                   keep( r, t.get() );
                   t.resize( 5 );
               } } };
}

static void checkLeft( size_t memory, size_t objects, const char * when )
{
    if ( cl::memory.size() != memory )
        fail( "%zd device buffers were left after %s", ssize_t( cl::memory.size() ) - ssize_t( memory ), when );
    if ( cl::objects.size() != objects )
        fail( "%zd kernels, programs, events, queues or contexts were left after %s", ssize_t( cl::objects.size() ) - ssize_t( objects ), when );
    expect( !cl::misuse, "a device object was released which does not exist" );
}

// every call to OpenCL fails once
static void failures()
{
    for ( const Call & c : allCalls() )
        for ( int arena = 0; arena < 2; ++arena ) {
            if ( !next() )
                continue;
            label( "failures during %s%s", c.name, arena ? " in prepared memory" : "" );
            if ( arena )
                multiCL::MemoryManager::memory().reserve( 65536 );
            Bytes expected;
            for ( long n = 0; n < 1000; ++n ) { // the first and the last ones without a failure
                phase( "failure of OpenCL call %ld", n );
                const size_t memory = cl::memory.size();
                bool threw = false, done = false;
                Bytes result;
                size_t objects = 0;
                {
                    Image a = penguinV::ImageOpenCL().generate( 2, 2 ), b = penguinV::ImageOpenCL().generate( 2, 2 ), out = penguinV::ImageOpenCL().generate( 2, 2 );
                    put( mem( a ), pattern( 4, 1 ) );
                    put( mem( b ), pattern( 4, 2 ) );
                    out.fill( 3 );
                    if ( n == 0 ) { // programs are built at the first use
                        Bytes r;
                        c.run( a, b, out, r );
                        out.resize( 2, 2 );
                        out.fill( 3 );
                    }
                    objects = cl::objects.size();
                    ++ctx().calls;
                    cl::countdown = n ? n : -1;
                    try {
                        c.run( a, b, out, result );
                    }
                    catch ( const std::exception & ) {
                        threw = true;
                        ++ctx().refused;
                    }
                    done = n && cl::countdown > 0;
                    cl::countdown = -1;
                    if ( n == 0 )
                        expected = result;
                    if ( threw ) {
                        if ( a.width() != 2 || b.width() != 2 || get( mem( a ), 4 ) != pattern( 4, 1 ) || get( mem( b ), 4 ) != pattern( 4, 2 ) )
                            fail( "inputs were modified by a failed call" );
                        if ( !out.empty() && ( !cl::memory.count( mem( out ) ) || cl::memory[mem( out )].size < bytes( out ) ) )
                            fail( "output is not valid after a failed call" );
                    }
                    else if ( n && !done )
                        fail( "failure of OpenCL was not reported" );
                    if ( !threw )
                        expect( result == expected, "wrong result" );
                    ++ctx().compared;
                }
                checkLeft( memory, objects, threw ? "a failed call" : "the call" );
                if ( done )
                    break;
            }
        }
}

static void useDevice( const char * when )
{
    bool ok = true;
    try {
        Image a = penguinV::ImageOpenCL().generate( 2, 2 );
        a.fill( 100 );
        const Image r = Image_Function_OpenCL::Invert( a );
        ok = get( mem( r ), 4 ) == Bytes( 4, 155 );
    }
    catch ( const std::exception & e ) {
        fail( "functions of the device do not work %s: %s", when, e.what() );
        return;
    }
    expect( ok, "wrong result" );
}

static void devices()
{
    multiCL::OpenCLDeviceManager & m = manager();
    const uint32_t n = m.supportedDeviceCount();
    if ( next() ) {
        label( "devices which do not exist" );
        for ( uint32_t id : { n, n + 1, n + 7, 0x7FFFFFFFu, 0xFFFFFFFFu } )
            for ( int what = 0; what < 6; ++what ) {
                phase( "device %u operation %d", id, what );
                bool threw = false;
                ++ctx().calls;
                try {
                    if ( what == 0 )
                        m.setActiveDevice( id );
                    else if ( what == 1 )
                        m.device( id );
                    else if ( what == 2 )
                        m.initializeDevice( id );
                    else if ( what == 3 )
                        m.closeDevice( id );
                    else if ( what == 4 )
                        static_cast<const multiCL::OpenCLDeviceManager &>( m ).device( id );
                    else
                        multiCL::MemoryManager::memory( id );
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++ctx().refused;
                }
                expect( threw, "device which does not exist was accepted" );
                ++ctx().compared;
                useDevice( "after a refused call" );
            }
    }
    // sequences of closing, initialising, queue counts and use
    const int OPS = 9, depth = ctx().thorough ? 4 : 3;
    for ( int first = 0; first < OPS; ++first ) {
        if ( !next() )
            continue;
        label( "device management, operations %d ..", first );
        int total = 1;
        for ( int i = 1; i < depth; ++i )
            total *= OPS;
        for ( int code = 0; code < total; ++code ) {
            phase( "code %d", code );
            bool open = true;
            int rest = code;
            for ( int step = 0; step < depth; ++step ) {
                const int op = step == 0 ? first : rest % OPS;
                if ( step )
                    rest /= OPS;
                ++ctx().calls;
                bool threw = false;
                try {
                    switch ( op ) {
                    case 0:
                        m.closeDevice( 0 );
                        open = false;
                        break;
                    case 1:
                        m.closeDevices();
                        open = false;
                        break;
                    case 2:
                        m.initializeDevice( 0 );
                        open = true;
                        break;
                    case 3:
                        m.initializeDevices();
                        open = true;
                        break;
                    case 4:
                        m.device().setQueueCount( 3 );
                        m.device().setCurrentQueueId( 2 );
                        expect( m.device().queueCount() == 3 && m.device().currentQueueId() == 2, "wrong queue count" );
                        break;
                    case 5:
                        m.device().setQueueCount( 1 );
                        expect( m.device().queueCount() == 1 && m.device().currentQueueId() == 0, "wrong queue count" );
                        break;
                    case 6: {
                        const size_t count = m.device().queueCount(), queue = m.device().currentQueueId();
                        m.device().setCurrentQueueId( count );
                        expect( m.device().currentQueueId() == queue, "queue which does not exist was accepted" );
                        break;
                    }
                    case 8:
                        m.device().setQueueCount( 0 );
                        break;
                    case 7:
                        m.resetSupportedDevice();
                        open = false;
                        expect( m.supportedDeviceCount() == n, "another number of devices was found" );
                        break;
                    }
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++ctx().refused;
                }
                expect( op == 8 ? open || threw : threw == ( !open && op >= 4 && op <= 6 ), "wrong accept or reject decision of device management" );
                if ( open )
                    useDevice( "after device management" );
                else {
                    bool refused = false;
                    try {
                        Image a = penguinV::ImageOpenCL().generate( 2, 2 );
                    }
                    catch ( const penguinVException & ) {
                        refused = true;
                    }
                    expect( refused, "closed device was used" );
                }
                ++ctx().compared;
            }
            m.closeDevices();
            m.initializeDevices();
            m.setActiveDevice( 0 );
        }
    }
    // failures of initialisation
    for ( int what = 0; what < 4; ++what ) {
        if ( !next() )
            continue;
        label( "failures of device initialisation %d", what );
        for ( long k = 0; k < 1000; ++k ) {
            phase( "failure of OpenCL call %ld", k );
            m.closeDevices();
            if ( what == 1 || what == 2 )
                m.initializeDevices();
            const size_t memory = cl::memory.size(), objects = cl::objects.size();
            bool threw = false, done = false;
            ++ctx().calls;
            cl::countdown = k ? k : -1;
            try {
                if ( what == 0 )
                    m.initializeDevices();
                else if ( what == 1 )
                    m.device().setQueueCount( 3 );
                else if ( what == 2 ) {
                    Image a = penguinV::ImageOpenCL().generate( 2, 2 );
                    a.fill( 100 );
                    const Image r = Image_Function_OpenCL::Invert( a );
                }
                else
                    m.resetSupportedDevice();
            }
            catch ( const std::exception & ) {
                threw = true;
                ++ctx().refused;
            }
            done = cl::countdown > 0;
            cl::countdown = -1;
            if ( k && !done && what != 3 )
                expect( threw, "failure of OpenCL was not reported" );
            if ( what == 3 && k && !done )
                expect( m.supportedDeviceCount() == 0 || threw, "unusable device was listed" );
            if ( threw && what == 0 )
                checkLeft( memory, objects, "a failed initialisation" );
            m.resetSupportedDevice();
            expect( m.supportedDeviceCount() == n, "another number of devices was found" );
            m.initializeDevices();
            m.setActiveDevice( 0 );
            useDevice( "after a failed initialisation" );
            ++ctx().compared;
            if ( done )
                break;
        }
    }
}

// ------------------------------------------------------------------------------------------------ programs from files, images of other types
static void programFiles()
{
    const std::string code = "__kernel void twice( __global uchar * d, uint size ) { const size_t x = get_global_id(0); if ( x < size ) d[x] = 2 * d[x]; }";
    for ( size_t extra = 0; extra < 40; ++extra ) {
        if ( !next() )
            continue;
        label( "program of %zu bytes in a file", code.size() + extra );
        const std::string name = "program" + std::to_string( extra ) + ".cl";
        FILE * f = fopen( name.c_str(), "wb" );
        const std::string text = code + std::string( extra, extra % 2 ? ' ' : '\n' );
        fwrite( text.data(), 1, text.size(), f );
        fclose( f );
        ++ctx().calls;
        {
            const multiCL::OpenCLProgram p = multiCL::CreateProgramFromFile( name );
            multiCL::OpenCLKernel k( p, "twice" );
            for ( size_t size : { size_t( 1 ), size_t( 7 ), size_t( 300 ), size_t( 5000 ) } ) {
                multiCL::Array<uint8_t> a( std::vector<uint8_t>( size, uint8_t( 40 + extra ) ) );
                k.reset();
                k.setArgument( a.data(), uint32_t( size ) );
                multiCL::launchKernel1D( k, size );
                expect( a.get() == std::vector<uint8_t>( size, uint8_t( 80 + 2 * extra ) ), "wrong result of the program" );
                ++ctx().compared;
            }
        }
        unlink( name.c_str() );
    }
    if ( next() ) {
        label( "programs which cannot be built" );
        const size_t objects = cl::objects.size();
        for ( const char * text : { "this is no program", "__kernel void f( __global uchar * d ) { d[0] = unknown; }" } ) {
            bool threw = false;
            ++ctx().calls;
            try {
                multiCL::OpenCLProgram p( manager().device().context(), text );
            }
            catch ( const penguinVException & ) {
                threw = true;
                ++ctx().refused;
            }
            expect( threw, "wrong program was accepted" );
        }
        expect( cl::objects.size() == objects, "objects of refused programs were left" );
    }
}

template <typename T>
static void wideImages( const char * name )
{
    const T fills[] = { T( 0 ), T( 1 ), T( 200 ), T( 40000.5 ), T( -3 ) };
    for ( uint32_t w = 1; w <= 5; ++w ) {
        if ( !next() )
            continue;
        label( "images of %s, width %u", name, w );
        const size_t before = cl::memory.size();
        for ( uint32_t h = 1; h <= 3; ++h )
            for ( uint8_t cc : { 1, 3 } )
                for ( uint8_t al : { 1, 4 } )
                    for ( T v : fills ) {
                        phase( "%ux%ux%u alignment %u", w, h, cc, al );
                        ++ctx().calls;
                        penguinV::ImageTemplateOpenCL<T> a( w, h, cc, al );
                        const size_t count = size_t( a.rowSize() ) * h;
                        auto content = [count]( const penguinV::ImageTemplate<T> & i ) {
                            const Bytes b = get( reinterpret_cast<cl_mem>( const_cast<T *>( i.data() ) ), count * sizeof( T ) );
                            std::vector<T> r( count );
                            memcpy( r.data(), b.data(), b.size() );
                            return r;
                        };
                        a.fill( v );
                        expect( content( a ) == std::vector<T>( count, v ), "wrong content of a filled image" );
                        penguinV::ImageTemplateOpenCL<T> b( a ), c;
                        c = a;
                        a.fill( T( 7 ) );
                        expect( content( b ) == std::vector<T>( count, v ) && content( c ) == content( b ), "wrong content of a copied image" );
                        expect( content( a ) == std::vector<T>( count, T( 7 ) ), "wrong content of a filled image" );
                        penguinV::ImageTemplateOpenCL<T> d( std::move( b ) );
                        expect( content( d ) == std::vector<T>( count, v ), "wrong content of a moved image" );
                        penguinV::ImageTemplate<T> e = d.generate( w, h, cc, al );
                        e = d;
                        expect( content( e ) == content( d ), "wrong content of an assigned image" );
                        ++ctx().compared;
                    }
        expect( cl::memory.size() == before, "device buffers were left" );
    }
}
static void otherImages()
{
    wideImages<uint16_t>( "uint16_t" );
    wideImages<uint32_t>( "uint32_t" );
    wideImages<float>( "float" );
    wideImages<double>( "double" );
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    setenv( "POCL_CACHE_DIR", "pocl", 1 );
    setenv( "POCL_CPU_MAX_CU_COUNT", "2", 0 );
    setenv( "POCL_MAX_PTHREAD_COUNT", "2", 0 );
    multiCL::enableDeviceSupport( true, true );
    if ( !multiCL::isOpenCLSupported() ) {
        fprintf( stderr, "no OpenCL device\n" );
        return 2;
    }
    manager().initializeDevices();
    manager().setActiveDevice( 0 );
    const std::string only = ctx().args.empty() ? "" : ctx().args[0];
    const std::pair<const char *, void ( * )()> parts[]
        = { { "allocator", allocatorSequences }, { "images", imageSequences }, { "types", typeSequences }, { "failures", failures }, { "programs", programFiles }, { "wide", otherImages }, { "devices", devices } };
    for ( auto & p : parts )
        if ( only.empty() || only == p.first ) {
            try {
                p.second();
            }
            catch ( const std::exception & e ) {
                fail( "unexpected exception: %s", e.what() );
            }
        }
    manager().closeDevices();
    vp::finish();
    return 0;
}
