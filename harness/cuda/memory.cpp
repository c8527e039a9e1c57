// Device memory, images, values, arrays, transforms and device management of the CUDA backend on the stand-in runtime: every short sequence of operations against a value
// model, every failure of a call to CUDA.
#include "../img/common.h"
#include "cuda/cuda_device.cuh"
#include "cuda/cuda_fft.cuh"
#include "cuda/cuda_helper.cuh"
#include "cuda/cuda_types.cuh"
#include "cuda/filtering_cuda.cuh"
#include "cuda/image_buffer_cuda.cuh"
#include "cuda/image_buffer_cuda_pinned.cuh"
#include "cuda/image_function_cuda.cuh"
#include "emu.h"
#include <complex>

typedef std::vector<uint8_t> Bytes;
std::vector<Op> OPS;

// ------------------------------------------------------------------------------------------------ helpers
static multiCuda::CudaDeviceManager & manager()
{
    return multiCuda::CudaDeviceManager::instance();
}
static void put( void * m, const Bytes & v )
{
    cudaEmu::write( m, v.data(), v.size() );
}
static Bytes get( const void * m, size_t size )
{
    Bytes v( size );
    cudaEmu::read( v.data(), m, size );
    return v;
}
static size_t bytes( const Image & i )
{
    return size_t( i.rowSize() ) * i.height();
}
static Bytes pattern( size_t size, uint32_t salt )
{
    Bytes v( size );
    for ( size_t i = 0; i < size; ++i )
        v[i] = uint8_t( ( i + 1 ) * 37 + salt * 101 + ( i >> 8 ) );
    return v;
}
// a device in its initial state
static void fresh( int arena = 0 )
{
    manager().closeDevices();
    manager().initializeDevices();
    manager().setActiveDevice( 0 );
    if ( arena ) {
        manager().device().allocator().reserve( 65536 );
        manager().device().setStreamCount( 1 );
    }
}
static void arm( uint64_t n )
{
    cudaEmu::state().failed.clear();
    cudaEmu::state().calls = 0;
    cudaEmu::state().failAt = n;
}
static std::string disarm()
{
    cudaEmu::state().failAt = 0;
    return cudaEmu::state().failed;
}

// ------------------------------------------------------------------------------------------------ allocator
static void allocatorSequences()
{
    const size_t sizes[] = { 1, 3, 4, 5, 16, 15 };
    const size_t arenas[] = { 0, 4, 16, 20, 32, 44 };
    // operations: 0..5 allocate, 6 free oldest, 7 free newest, 8 free the middle one, 9.. reserve other sizes
    const int OPERATIONS = 12;
    const int depth = ctx().thorough ? 6 : 4;
    for ( size_t arena : arenas )
        for ( int first = 0; first < 6; ++first )
            for ( int second = 0; second < OPERATIONS; ++second ) {
                if ( !next() )
                    continue;
                label( "allocator with %zu bytes, operations %d %d ..", arena, first, second );
                int total = 1;
                for ( int i = 2; i < depth; ++i )
                    total *= OPERATIONS;
                for ( int code = 0; code < total; ++code ) {
                    phase( "code %d", code );
                    ++ctx().calls;
                    const size_t before = cudaEmu::blocks();
                    {
                        multiCuda::MemoryAllocator a( 1 << 20 );
                        if ( arena )
                            a.reserve( arena );
                        struct Live
                        {
                            uint8_t * m;
                            size_t size;
                            uint32_t salt;
                            bool own; // not in the reserved block
                        };
                        std::vector<Live> live;
                        int rest = code;
                        for ( int step = 0; step < depth; ++step ) {
                            const int op = step == 0 ? first : step == 1 ? second : rest % OPERATIONS;
                            if ( step > 1 )
                                rest /= OPERATIONS;
                            if ( op < 6 ) {
                                Live l{ nullptr, sizes[op], uint32_t( step + code ), false };
                                const size_t blocks = cudaEmu::blocks();
                                if ( op == 4 ) // other type
                                    l.m = reinterpret_cast<uint8_t *>( a.allocate<uint32_t>( 4 ) );
                                else
                                    l.m = a.allocate<uint8_t>( sizes[op] );
                                l.own = cudaEmu::blocks() != blocks;
                                for ( const Live & o : live )
                                    expect( o.m + o.size <= l.m || l.m + l.size <= o.m, "blocks in use overlap" );
                                if ( !cudaEmu::isDevice( l.m, l.size ) )
                                    fail( "block is smaller than requested" );
                                else {
                                    put( l.m, pattern( l.size, l.salt ) );
                                    live.push_back( l );
                                }
                            }
                            else if ( op < 9 ) {
                                if ( live.empty() )
                                    continue;
                                const size_t k = op == 6 ? 0 : op == 7 ? live.size() - 1 : live.size() / 2;
                                a.free( live[k].m );
                                live.erase( live.begin() + long( k ) );
                            }
                            else {
                                const size_t size = op == 9 ? 8 : op == 10 ? 64 : ( size_t( 2 ) << 20 );
                                bool arenaUsed = false;
                                for ( const Live & o : live )
                                    arenaUsed = arenaUsed || !o.own;
                                bool threw = false;
                                try {
                                    a.reserve( size );
                                }
                                catch ( const std::exception & ) {
                                    threw = true;
                                    ++ctx().refused;
                                }
                                if ( op == 11 )
                                    expect( threw, "more than available memory was reserved" );
                                else if ( !arenaUsed )
                                    expect( !threw, "reserving was refused" );
                            }
                            for ( const Live & o : live )
                                expect( get( o.m, o.size ) == pattern( o.size, o.salt ), "block in use changed its content" );
                            ++ctx().compared;
                        }
                        for ( const Live & o : live )
                            a.free( o.m );
                    }
                    expect( cudaEmu::blocks() == before, "device memory was not released with the allocator" );
                }
            }
    // sizes which cannot be counted in bytes
    for ( size_t arena : { 0u, 4096u } ) {
        if ( !next() )
            continue;
        label( "huge blocks, arena of %zu bytes", arena );
        multiCuda::MemoryAllocator a( 1 << 20 );
        if ( arena )
            a.reserve( arena );
        const size_t before = cudaEmu::blocks();
        for ( size_t extra = 0; extra < 300; ++extra )
            for ( int type = 0; type < 3; ++type ) {
                phase( "type %d, %zu elements above the limit", type, extra + 1 );
                ++ctx().calls;
                try {
                    if ( type == 0 )
                        a.allocate<uint16_t>( SIZE_MAX / 2 + 1 + extra );
                    else if ( type == 1 )
                        a.allocate<uint32_t>( SIZE_MAX / 4 + 1 + extra );
                    else
                        a.allocate<double>( SIZE_MAX / 8 + 1 + extra );
                    fail( "a block is smaller than required" );
                }
                catch ( const std::exception & ) {
                    ++ctx().refused;
                }
                expect( cudaEmu::blocks() == before, "a refused request takes memory" );
                ++ctx().compared;
            }
    }
    // everything is usable again after all blocks were freed, failures included
    for ( size_t arena : { 4u, 16u, 20u, 32u, 48u } ) {
        if ( !next() )
            continue;
        label( "reuse of arena of %zu bytes", arena );
        for ( int n = 1; n <= 8; ++n )
            for ( int order = 0; order < 3; ++order ) {
                phase( "%d blocks order %d", n, order );
                ++ctx().calls;
                multiCuda::MemoryAllocator a( 1 << 20 );
                a.reserve( arena );
                size_t half = 1;
                while ( half * 2 < arena )
                    half *= 2;
                size_t fit[2] = { 0, 0 };
                for ( int round = 0; round < 2; ++round ) {
                    std::vector<uint8_t *> v;
                    for ( int i = 0; i < n; ++i ) {
                        const size_t blocks = cudaEmu::blocks();
                        v.push_back( a.allocate<uint8_t>( 2 ) );
                        fit[round] += cudaEmu::blocks() == blocks;
                    }
                    if ( order == 1 )
                        std::reverse( v.begin(), v.end() );
                    if ( order == 2 && v.size() > 2 )
                        std::swap( v[0], v[v.size() / 2] );
                    for ( uint8_t * m : v )
                        a.free( m );
                    const size_t blocks = cudaEmu::blocks();
                    uint8_t * m = a.allocate<uint8_t>( half );
                    expect( cudaEmu::blocks() == blocks, "freed memory cannot be used again" );
                    a.free( m );
                }
                expect( fit[0] == fit[1], "freed memory cannot be used again" );
                expect( fit[0] == std::min( size_t( n ), arena / 2 ), "prepared memory is not used" );
                ++ctx().compared;
            }
    }
    // failures
    if ( next() ) {
        label( "failures of the allocator" );
        for ( int what = 0; what < 4; ++what )
            for ( uint64_t k = 0; k < 10; ++k ) {
                phase( "operation %d failure of call %lu", what, (unsigned long)k );
                const size_t before = cudaEmu::blocks();
                std::string failed;
                {
                    multiCuda::MemoryAllocator a( 1 << 20 );
                    if ( what != 0 )
                        a.reserve( 32 );
                    uint8_t * big = what == 3 ? a.allocate<uint8_t>( 100 ) : nullptr;
                    bool threw = false;
                    ++ctx().calls;
                    arm( k );
                    try {
                        if ( what == 0 )
                            a.reserve( 32 );
                        else if ( what == 1 )
                            a.reserve( 64 );
                        else if ( what == 2 )
                            big = a.allocate<uint8_t>( 100 );
                        else
                            a.free( big );
                    }
                    catch ( const std::exception & ) {
                        threw = true;
                        ++ctx().refused;
                    }
                    failed = disarm();
                    expect( threw == !failed.empty(), "failure of CUDA was not reported" );
                    uint8_t * m = a.allocate<uint8_t>( 5 );
                    expect( cudaEmu::isDevice( m, 5 ), "block is not valid after a failure" );
                    a.free( m );
                    if ( failed == "cudaMalloc" && what < 2 ) {
                        a.reserve( 16 );
                        m = a.allocate<uint8_t>( 5 );
                        expect( cudaEmu::isDevice( m, 5 ), "block is not valid after a failure" );
                        a.free( m );
                    }
                    if ( what == 2 && !threw )
                        a.free( big );
                    if ( what == 3 && threw )
                        a.free( big );
                    ++ctx().compared;
                }
                expect( cudaEmu::blocks() == before, "device memory was not released with the allocator" );
            }
    }
}

// ------------------------------------------------------------------------------------------------ images as values
struct Model
{
    uint32_t w = 0, h = 0;
    uint8_t cc = 1, al = 1;
    bool known = false;
    Bytes d;
    uint32_t row() const
    {
        return w ? ( w * cc + al - 1 ) / al * al : 0;
    }
    void resize( uint32_t w_, uint32_t h_ )
    {
        if ( w_ == w && h_ == h )
            return;
        w = w_;
        h = h_;
        known = false;
        d.clear();
    }
    void clear()
    {
        w = h = 0;
        known = false;
        d.clear();
    }
};
static const int IMAGE_OPS = 19;
static void apply( int op, Image im[2], Model m[2], int step )
{
    const int a = op & 1, b = 1 - a;
    switch ( op ) {
    case 0:
    case 1:
        im[a] = penguinV::ImageCuda().generate( 2, 2 );
        m[a] = Model();
        m[a].resize( 2, 2 );
        break;
    case 2:
    case 3:
        im[a] = penguinV::ImageCuda( 3, 2, 3, 4 );
        m[a] = Model();
        m[a].cc = 3;
        m[a].al = 4;
        m[a].resize( 3, 2 );
        break;
    case 4:
    case 5:
        if ( m[a].w ) {
            m[a].d = pattern( size_t( m[a].row() ) * m[a].h, uint32_t( step ) );
            m[a].known = true;
            put( im[a].data(), m[a].d );
        }
        break;
    case 6:
    case 7:
        im[a].fill( uint8_t( 40 + step ) );
        if ( m[a].w ) {
            m[a].d.assign( size_t( m[a].row() ) * m[a].h, uint8_t( 40 + step ) );
            m[a].known = true;
        }
        break;
    case 8:
    case 9:
        im[a] = im[b];
        m[a] = m[b];
        break;
    case 10: {
        Image t( im[0] );
        im[1].swap( t );
        m[1] = m[0];
        break;
    }
    case 11: {
        penguinV::ImageCuda t;
        t = penguinV::ImageCuda( 1, 1 );
        t.fill( 9 );
        penguinV::ImageCuda u( t );
        penguinV::ImageCuda v( std::move( t ) );
        u.fill( 8 );
        im[0] = v;
        im[1] = u;
        m[0] = Model();
        m[0].resize( 1, 1 );
        m[0].known = true;
        m[1] = m[0];
        m[0].d.assign( 1, 9 );
        m[1].d.assign( 1, 8 );
        break;
    }
    case 12:
        im[0].resize( 3, 2 );
        m[0].resize( 3, 2 );
        break;
    case 13:
        im[1].clear();
        m[1].clear();
        break;
    case 14:
        im[0].swap( im[1] );
        std::swap( m[0], m[1] );
        break;
    case 15:
        im[1].setAlignment( 8 );
        if ( m[1].al != 8 ) {
            m[1].clear();
            m[1].al = 8;
        }
        break;
    case 16: {
        Image t( std::move( im[0] ) );
        im[0] = std::move( t );
        break;
    }
    case 17:
        if ( im[1].type() == im[0].type() ) {
            im[1].copy( im[0] );
            m[1] = m[0];
        }
        break;
    case 18:
        im[0].setColorCount( 3 );
        if ( m[0].cc != 3 ) {
            m[0].clear();
            m[0].cc = 3;
        }
        break;
    }
}

static void imageSequences()
{
    const int depth = ctx().thorough ? 4 : 3;
    for ( int arena = 0; arena < 2; ++arena )
        for ( int first = 0; first < IMAGE_OPS; ++first ) {
            for ( int second = 0; second < IMAGE_OPS; ++second ) {
                if ( !next() )
                    continue;
                fresh( arena );
                label( "device images%s, operations %d %d ..", arena ? " in prepared memory" : "", first, second );
                int total = 1;
                for ( int i = 2; i < depth; ++i )
                    total *= IMAGE_OPS;
                for ( int code = 0; code < total; ++code ) {
                    phase( "code %d", code );
                    const size_t before = cudaEmu::blocks();
                    {
                        Image im[2] = { penguinV::ImageCuda().generate(), penguinV::ImageCuda().generate() };
                        Model m[2];
                        int rest = code;
                        for ( int step = 0; step < depth; ++step ) {
                            const int op = step == 0 ? first : step == 1 ? second : rest % IMAGE_OPS;
                            if ( step > 1 )
                                rest /= IMAGE_OPS;
                            ++ctx().calls;
                            apply( op, im, m, step );
                            for ( int k = 0; k < 2; ++k ) {
                                if ( im[k].type() != 1 || im[k].width() != m[k].w || im[k].height() != m[k].h || im[k].colorCount() != m[k].cc || im[k].alignment() != m[k].al
                                     || im[k].rowSize() != m[k].row() || im[k].empty() != ( m[k].w == 0 ) )
                                    fail( "image %d after operation %d is %ux%ux%u alignment %u type %u, expected %ux%ux%u alignment %u type 1", k, op, im[k].width(), im[k].height(),
                                          im[k].colorCount(), im[k].alignment(), im[k].type(), m[k].w, m[k].h, m[k].cc, m[k].al );
                                else if ( m[k].known && get( im[k].data(), bytes( im[k] ) ) != m[k].d )
                                    fail( "image %d has a wrong content after operation %d", k, op );
                            }
                            if ( !im[0].empty() && im[0].data() == im[1].data() )
                                fail( "two images share their memory after operation %d", op );
                            ++ctx().compared;
                        }
                    }
                    if ( cudaEmu::blocks() != before )
                        fail( "%zd device buffers were left", ssize_t( cudaEmu::blocks() ) - ssize_t( before ) );
                }
            }
        }
}

// ------------------------------------------------------------------------------------------------ values and arrays
static void typeSequences()
{
    const int OPS = 10;
    for ( int first = 0; first < OPS; ++first ) {
        if ( !next() )
            continue;
        label( "arrays and values, operations %d ..", first );
        for ( int code = 0; code < OPS * OPS * ( ctx().thorough ? OPS : 1 ); ++code ) {
            phase( "code %d", code );
            const size_t before = cudaEmu::blocks();
            {
                multiCuda::Array<uint32_t> a, b;
                multiCuda::Type<uint32_t> t( 5u ), u;
                std::vector<uint32_t> ma, mb;
                uint32_t mt = 5, mu = 0;
                bool ka = true, kb = true, ku = false; // content known
                int rest = code;
                for ( int step = 0; step < ( ctx().thorough ? 4 : 3 ); ++step ) {
                    const int op = step == 0 ? first : rest % OPS;
                    if ( step )
                        rest /= OPS;
                    ++ctx().calls;
                    const std::vector<uint32_t> v( size_t( 1 + step ), uint32_t( 1000 + step ) );
                    switch ( op ) {
                    case 0:
                        a = v;
                        ma = v;
                        ka = true;
                        break;
                    case 1:
                        b = multiCuda::Array<uint32_t>( v );
                        mb = v;
                        kb = true;
                        break;
                    case 2:
                        a.resize( 2 );
                        ka = ka && ma.size() == 2;
                        ma.resize( 2 );
                        break;
                    case 3:
                        a.resize( 0 );
                        ma.clear();
                        ka = true;
                        break;
                    case 4:
                        b = std::move( a ); // exchanges the content
                        std::swap( ma, mb );
                        std::swap( ka, kb );
                        break;
                    case 5:
                        a = std::vector<uint32_t>();
                        ma.clear();
                        ka = true;
                        break;
                    case 6:
                        t = uint32_t( 70 + step );
                        mt = uint32_t( 70 + step );
                        break;
                    case 7:
                        u = std::move( t );
                        std::swap( mt, mu );
                        if ( !ku ) { // t has unknown content now
                            t = uint32_t( 3 );
                            mt = 3;
                        }
                        ku = true;
                        break;
                    case 8:
                        b = multiCuda::Array<uint32_t>( size_t( 3 ) );
                        mb.assign( 3, 0 );
                        kb = false;
                        break;
                    case 9: {
                        a = static_cast<const multiCuda::Array<uint32_t> &>( b );
                        ma = mb;
                        ka = kb;
                        const multiCuda::Array<uint32_t> c( a );
                        if ( ka )
                            expect( c.get() == ma && c.size() == ma.size(), "wrong copy of array" );
                        const multiCuda::Type<uint32_t> v2( t );
                        expect( v2.get() == mt, "wrong copy of value" );
                        break;
                    }
                    }
                    expect( a.size() == ma.size() && b.size() == mb.size() && a.empty() == ma.empty() && b.empty() == mb.empty(), "wrong size of array" );
                    if ( ka )
                        expect( a.get() == ma, "wrong content of array" );
                    if ( kb )
                        expect( b.get() == mb, "wrong content of array" );
                    expect( t.get() == mt && ( !ku || u.get() == mu ), "wrong value" );
                    ++ctx().compared;
                }
            }
            expect( cudaEmu::blocks() == before, "device buffers were left" );
        }
    }
}

// ------------------------------------------------------------------------------------------------ failures
struct Call
{
    const char * name;
    std::function<void( Image & a, Image & b, Image & out, Bytes & result )> run;
};
static void keep( Bytes & r, const std::vector<uint32_t> & v )
{
    for ( uint32_t x : v )
        r.push_back( uint8_t( x ) );
}
static void keep( Bytes & r, const Image & i )
{
    if ( !i.empty() ) {
        const Bytes v = get( i.data(), bytes( i ) );
        r.insert( r.end(), v.begin(), v.end() );
    }
}
#define RESULT( F, ... ) { #F, []( Image & a, Image & b, Image & out, Bytes & result ) { (void)a; (void)b; (void)out; const Image r = Image_Function_Cuda::F( __VA_ARGS__ ); keep( result, r ); } }
#define INTO( F, ... ) { #F, []( Image & a, Image & b, Image & out, Bytes & result ) { (void)a; (void)b; (void)out; Image_Function_Cuda::F( __VA_ARGS__ ); keep( result, out ); } }
static std::vector<Call> allCalls()
{
    static const std::vector<uint8_t> table( 256, 3 );
    static const std::vector<uint32_t> px( 2, 1 );
    return { RESULT( AbsoluteDifference, a, b ),
             RESULT( Subtract, a, b ),
             INTO( Maximum, a, b, out ),
             RESULT( ConvertToRgb, a ),
             INTO( ConvertToGrayScale, a, out ),
             RESULT( Copy, a, 0, 0, 1, 2 ),
             INTO( Copy, a, out ),
             RESULT( ExtractChannel, a, 0 ),
             INTO( Fill, out, 0, 0, 1, 1, 77 ),
             INTO( Fill, out, 78 ),
             RESULT( Flip, a, true, false ),
             RESULT( GammaCorrection, a, 1.0, 0.5 ),
             RESULT( Invert, a ),
             INTO( LookupTable, a, out, table ),
             INTO( Threshold, a, out, 100 ),
             RESULT( Threshold, a, 50, 100 ),
             INTO( SetPixel, out, 1, 1, 5 ),
             INTO( SetPixel, out, px, px, 5 ),
             { "Histogram", []( Image & a, Image &, Image &, Bytes & r ) { keep( r, Image_Function_Cuda::Histogram( a ) ); } },
             { "ProjectionProfile", []( Image & a, Image &, Image &, Bytes & r ) { keep( r, Image_Function_Cuda::ProjectionProfile( a, true ) ); } },
             { "IsEqual", []( Image & a, Image & b, Image &, Bytes & r ) { r.push_back( Image_Function_Cuda::IsEqual( a, b ) ); } },
             { "ConvertFromCuda",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   const Image h = Image_Function_Cuda::ConvertFromCuda( a );
                   r.assign( h.data(), h.data() + bytes( h ) );
               } },
             { "ConvertFromCuda padded",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   Image h( 2, 2, 1, 4 );
                   h.fill( 0 );
                   Image_Function_Cuda::ConvertFromCuda( a, h );
                   r.assign( h.data(), h.data() + bytes( h ) );
               } },
             { "ConvertToCuda",
               []( Image &, Image &, Image &, Bytes & r ) {
                   Image h( 2, 2, 1, 4 );
                   h.fill( 4 );
                   keep( r, Image_Function_Cuda::ConvertToCuda( h ) );
               } },
             { "copy of image",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   const Image c( a );
                   keep( r, c );
               } },
             { "assignment of image",
               []( Image & a, Image &, Image & out, Bytes & r ) {
                   out = a;
                   keep( r, out );
               } },
             { "resize",
               []( Image &, Image &, Image & out, Bytes & r ) {
                   out.resize( 3, 3 );
                   out.fill( 1 );
                   keep( r, out );
               } },
             { "new image",
               []( Image &, Image &, Image &, Bytes & r ) {
                   penguinV::ImageCuda i( 2, 3 );
                   i.fill( 6 );
                   keep( r, i );
               } },
             { "value",
               []( Image &, Image &, Image &, Bytes & r ) {
                   multiCuda::Type<uint32_t> t( 7u );
                   r.push_back( uint8_t( t.get() ) );
                   t = 8u;
                   r.push_back( uint8_t( t.get() ) );
               } },
             { "array",
               []( Image &, Image &, Image &, Bytes & r ) {
                   multiCuda::Array<uint32_t> t( std::vector<uint32_t>( 3, 9 ) );
                   keep( r, t.get() );
                   t = std::vector<uint32_t>( 2, 8 );
                   keep( r, t.get() );
                   t.resize( 5 );
               } },
             { "Gaussian",
               []( Image & a, Image &, Image & out, Bytes & r ) {
                   Image_Function_Cuda::Gaussian( a, out, 1, 1.0f );
                   keep( r, out );
               } },
             { "transform",
               []( Image & a, Image &, Image &, Bytes & r ) {
                   FFT_Cuda::ComplexData d( a );
                   const FFT_Cuda::ComplexData e( d );
                   FFT_Cuda::FFTExecutor x( 2, 2 );
                   x.directTransform( d );
                   x.complexMultiplication( e, d, d );
                   x.inverseTransform( d );
                   keep( r, d.get() );
               } },
             { "Rotate", []( Image & a, Image &, Image & out, Bytes & r ) {
                  Image_Function_Cuda::Rotate( a, 0, 0, out, 1, 1, 1 );
                  keep( r, out );
              } } };
}

static void checkLeft( size_t memory, size_t streams, const char * when )
{
    if ( cudaEmu::blocks() != memory )
        fail( "%zd device buffers were left after %s", ssize_t( cudaEmu::blocks() ) - ssize_t( memory ), when );
    if ( cudaEmu::streams() != streams )
        fail( "%zd streams were left after %s", ssize_t( cudaEmu::streams() ) - ssize_t( streams ), when );
    if ( cudaEmu::plans() )
        fail( "%zu transforms were left after %s", cudaEmu::plans(), when );
}

// every call to CUDA fails once
static void failures()
{
    for ( const Call & c : allCalls() )
        for ( int arena = 0; arena < 2; ++arena ) {
            if ( !next() )
                continue;
            label( "failures during %s%s", c.name, arena ? " in prepared memory" : "" );
            fresh( arena );
            Bytes expected;
            for ( uint64_t n = 0; n < 1000; ++n ) { // the first and the last ones without a failure
                phase( "failure of CUDA call %lu", (unsigned long)n );
                const size_t memory = cudaEmu::blocks(), streams = cudaEmu::streams();
                bool threw = false, done = false;
                std::string failed;
                Bytes result;
                {
                    Image a = penguinV::ImageCuda().generate( 2, 2 ), b = penguinV::ImageCuda().generate( 2, 2 ), out = penguinV::ImageCuda().generate( 2, 2 );
                    put( a.data(), pattern( 4, 1 ) );
                    put( b.data(), pattern( 4, 2 ) );
                    out.fill( 3 );
                    ++ctx().calls;
                    arm( n );
                    try {
                        c.run( a, b, out, result );
                    }
                    catch ( const std::exception & ) {
                        threw = true;
                        ++ctx().refused;
                    }
                    failed = disarm();
                    done = n && failed.empty();
                    if ( n == 0 )
                        expected = result;
                    if ( threw ) {
                        if ( a.width() != 2 || b.width() != 2 || get( a.data(), 4 ) != pattern( 4, 1 ) || get( b.data(), 4 ) != pattern( 4, 2 ) )
                            fail( "inputs were modified by a failed call" );
                        if ( !out.empty() && !cudaEmu::isDevice( out.data(), bytes( out ) ) )
                            fail( "output is not valid after a failed call" );
                    }
                    else if ( n && !done && failed != "cudaFree" && failed != "cufftDestroy" )
                        fail( "failure of %s was not reported", failed.c_str() );
                    if ( !threw )
                        expect( result == expected, "wrong result" );
                    ++ctx().compared;
                }
                if ( failed != "cudaFree" ) // memory which cannot be released stays
                    checkLeft( memory, streams, threw ? ( "a failure of " + failed ).c_str() : "the call" );
                expect( cudaPeekAtLastError() == cudaSuccess || cudaGetLastError() == cudaSuccess, "the error is reported again by the next kernel" );
                if ( done )
                    break;
            }
        }
}

static void useDevice( const char * when )
{
    bool ok = true;
    try {
        Image a = penguinV::ImageCuda().generate( 2, 2 );
        a.fill( 100 );
        const Image r = Image_Function_Cuda::Invert( a );
        manager().device().synchronize();
        ok = get( r.data(), 4 ) == Bytes( 4, 155 );
    }
    catch ( const std::exception & e ) {
        fail( "functions of the device do not work %s: %s", when, e.what() );
        return;
    }
    expect( ok, "wrong result" );
}

static void devices()
{
    multiCuda::CudaDeviceManager & m = manager();
    const int n = m.supportedDeviceCount();
    if ( next() ) {
        label( "devices which do not exist" );
        fresh();
        for ( int id : { n, n + 1, n + 7, 0x7FFFFFFF, -1, -2, int( 0x80000000 ) } )
            for ( int what = 0; what < 6; ++what ) {
                phase( "device %d operation %d", id, what );
                bool threw = false;
                ++ctx().calls;
                try {
                    if ( what == 0 )
                        m.setActiveDevice( id );
                    else if ( what == 1 )
                        m.device( id );
                    else if ( what == 2 )
                        m.initializeDevice( id );
                    else if ( what == 3 )
                        m.closeDevice( id );
                    else if ( what == 4 )
                        static_cast<const multiCuda::CudaDeviceManager &>( m ).device( id );
                    else
                        multiCuda::MemoryManager::memory( id );
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++ctx().refused;
                }
                expect( threw, "device which does not exist was accepted" );
                ++ctx().compared;
                useDevice( "after a refused call" );
            }
        // description
        multiCuda::CudaDevice & d = m.device();
        expect( d.deviceId() == 0 && d.name() == "device 0" && d.computeCapability() == "7.5" && d.totalMemorySize() == cudaEmu::state().memory && d.sharedMemoryPerBlock() == 49152
                    && d.dmaEngineCount() == 2 && d.maximumThreadsPerBlock() == unsigned( cudaEmu::state().maxThreads ),
                "wrong description of the device" );
        for ( uint32_t t = 0; t <= 2048; ++t ) {
            phase( "%u threads per block", t );
            d.setThreadsPerBlock( 64 );
            bool threw = false;
            ++ctx().calls;
            try {
                d.setThreadsPerBlock( t );
            }
            catch ( const penguinVException & ) {
                threw = true;
                ++ctx().refused;
            }
            const bool ok = t && t % 32 == 0;
            expect( threw == !ok || t > d.maximumThreadsPerBlock(), "wrong accept or reject decision of the number of threads" );
            expect( d.threadsPerBlock() == ( ok && t <= d.maximumThreadsPerBlock() ? t : 64 ), "wrong number of threads" );
            ++ctx().compared;
        }
    }
    // sequences of closing, initialising, activation, stream counts and use
    const int OPERATIONS = 12, depth = ctx().thorough ? 4 : 3;
    for ( int first = 0; first < OPERATIONS; ++first ) {
        if ( !next() )
            continue;
        label( "device management, operations %d ..", first );
        int total = 1;
        for ( int i = 1; i < depth; ++i )
            total *= OPERATIONS;
        for ( int code = 0; code < total; ++code ) {
            phase( "code %d", code );
            fresh();
            bool open[2] = { true, true };
            size_t streams[2] = { 0, 0 }, current[2] = { 0, 0 };
            int active = 0;
            int rest = code;
            for ( int step = 0; step < depth; ++step ) {
                const int op = step == 0 ? first : rest % OPERATIONS;
                if ( step )
                    rest /= OPERATIONS;
                ++ctx().calls;
                bool threw = false, expected = false;
                const auto close = [&]( int k ) {
                    open[k] = false;
                    streams[k] = current[k] = 0;
                };
                try {
                    switch ( op ) {
                    case 0:
                    case 1:
                        close( op );
                        m.closeDevice( op );
                        break;
                    case 2:
                        close( 0 );
                        close( 1 );
                        m.closeDevices();
                        break;
                    case 3:
                    case 4:
                        open[op - 3] = true;
                        m.initializeDevice( op - 3 );
                        break;
                    case 5:
                        open[0] = open[1] = true;
                        m.initializeDevices();
                        break;
                    case 6:
                    case 7:
                        expected = !open[op - 6];
                        if ( !expected )
                            active = op - 6;
                        m.setActiveDevice( op - 6 );
                        break;
                    case 8:
                    case 9:
                    case 10: {
                        const size_t count = op == 8 ? 3 : op == 9 ? 1 : 0;
                        expected = !open[active];
                        multiCuda::CudaDevice & d = m.device();
                        d.setStreamCount( count );
                        streams[active] = count;
                        if ( current[active] >= count )
                            current[active] = 0;
                        break;
                    }
                    case 11: {
                        expected = !open[active];
                        multiCuda::CudaDevice & d = m.device();
                        d.setCurrentStreamId( 2 );
                        if ( streams[active] > 2 )
                            current[active] = 2;
                        break;
                    }
                    }
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++ctx().refused;
                }
                expect( threw == expected, "wrong accept or reject decision of device management" );
                expect( m.deviceCount() == open[0] + open[1], "wrong number of devices" );
                expect( cudaEmu::streams() == streams[0] + streams[1], "wrong number of streams" );
                if ( open[active] ) {
                    const multiCuda::CudaDevice & d = m.device();
                    expect( d.deviceId() == active && d.streamCount() == streams[active] && d.currentStreamId() == current[active], "wrong state of the device" );
                    expect( multiCuda::getCudaStream() == ( streams[active] ? d.stream( current[active] ).id() : nullptr ), "wrong stream is used" );
                    useDevice( "after device management" );
                }
                else {
                    bool refused = false;
                    try {
                        Image a = penguinV::ImageCuda().generate( 2, 2 );
                    }
                    catch ( const penguinVException & ) {
                        refused = true;
                    }
                    expect( refused, "closed device was used" );
                }
                ++ctx().compared;
            }
        }
    }
    fresh();
    // failures of device management
    for ( int what = 0; what < 7; ++what ) {
        if ( !next() )
            continue;
        label( "failures of device management %d", what );
        for ( uint64_t k = 0; k < 100; ++k ) {
            phase( "failure of CUDA call %lu", (unsigned long)k );
            m.closeDevices();
            if ( what )
                fresh();
            else
                m.closeDevices();
            if ( what == 2 )
                m.device().setStreamCount( 3 );
            const size_t memory = cudaEmu::blocks(), streams = cudaEmu::streams();
            bool threw = false;
            ++ctx().calls;
            arm( k );
            try {
                if ( what == 0 )
                    m.initializeDevices();
                else if ( what == 1 )
                    m.device().setStreamCount( 3 );
                else if ( what == 2 )
                    m.device().setStreamCount( 1 );
                else if ( what == 3 )
                    m.setActiveDevice( 1 );
                else if ( what == 4 )
                    m.device().synchronize();
                else if ( what == 5 )
                    m.closeDevice( 1 );
                else
                    m.device().allocator().reserve( 1024 );
            }
            catch ( const std::exception & ) {
                threw = true;
                ++ctx().refused;
            }
            const std::string failed = disarm();
            if ( k && !failed.empty() && what != 2 && what != 5 && !( what == 0 && failed == "cudaSetDevice" ) )
                expect( threw, "failure of CUDA was not reported" );
            if ( threw && what == 0 )
                checkLeft( memory, streams, "a failed initialisation" );
            if ( threw && what == 1 )
                expect( m.device().streamCount() == cudaEmu::streams(), "streams were left after a failure" );
            cudaGetLastError();
            int current = -1;
            cudaGetDevice( &current );
            if ( what != 0 )
                expect( m.device().deviceId() == current || ( what == 5 && failed == "cudaSetDevice" ), "another device is active after a failure" );
            fresh();
            useDevice( "after a failure" );
            ++ctx().compared;
            if ( k && failed.empty() )
                break;
        }
    }
}

// ------------------------------------------------------------------------------------------------ grids
static void grids()
{
    const int limits[][3] = { { 1024, 1024, 64 }, { 512, 512, 64 }, { 1024, 16, 8 }, { 16, 1024, 8 }, { 32, 1, 1 }, { 64, 2, 2 } };
    for ( int maxThreads : { 32, 64, 512, 1024 } )
        for ( auto & l : limits )
            for ( int gridLimit : { 3, 65535 } ) {
                if ( !next() )
                    continue;
                label( "grids for %d threads, block %d,%d,%d, grid %d", maxThreads, l[0], l[1], l[2], gridLimit );
                const cudaEmu::State old = cudaEmu::state();
                cudaEmu::state().maxThreads = maxThreads;
                for ( int k = 0; k < 3; ++k ) {
                    cudaEmu::state().maxDim[k] = std::min( l[k], maxThreads );
                    cudaEmu::state().maxGrid[k] = gridLimit;
                }
                fresh();
                for ( int threads = 32; threads <= maxThreads; threads += maxThreads > 512 && threads >= 128 ? 128 : 32 ) {
                    manager().device().setThreadsPerBlock( uint32_t( threads ) );
                    const uint32_t sizes[] = { 1, 2, 31, 32, 33, 95, 96, 97, 1000, 5000, 65536, 1000000, 0x7FFFFFFF, 0xFFFFFFFF };
                    for ( uint32_t x : sizes )
                        for ( uint32_t y : sizes )
                            for ( uint32_t z : { 1u, 2u, 5u, 65536u } ) {
                                for ( int dims = 1; dims <= 3; ++dims ) {
                                    if ( ( dims < 3 && z > 1 ) || ( dims < 2 && y > 1 ) )
                                        continue;
                                    phase( "%d threads, size %u,%u,%u dimensions %d", threads, x, y, z, dims );
                                    ++ctx().calls;
                                    multiCuda::GridParameters g;
                                    bool threw = false;
                                    try {
                                        g = dims == 1 ? multiCuda::getGridParameters( x ) : dims == 2 ? multiCuda::getGridParameters( x, y ) : multiCuda::getGridParameters( x, y, z );
                                    }
                                    catch ( const penguinVException & ) {
                                        threw = true;
                                        ++ctx().refused;
                                    }
                                    const dim3 & b = g.threadsPerBlock, & q = g.blocksPerGrid;
                                    const uint64_t want[3] = { x, dims > 1 ? y : 1, dims > 2 ? z : 1 };
                                    if ( threw ) {
                                        // nothing bigger than the smallest possible grid may be refused
                                        expect( x > uint32_t( gridLimit ) || want[1] > uint64_t( gridLimit ) || want[2] > uint64_t( gridLimit ), "possible grid was refused" );
                                        continue;
                                    }
                                    const unsigned bb[3] = { b.x, b.y, b.z }, qq[3] = { q.x, q.y, q.z };
                                    for ( int k = 0; k < 3; ++k ) {
                                        expect( bb[k] >= 1 && bb[k] <= unsigned( cudaEmu::state().maxDim[k] ), "block is bigger than possible" );
                                        expect( qq[k] >= 1 && qq[k] <= unsigned( gridLimit ), "grid is bigger than possible" );
                                        expect( uint64_t( bb[k] ) * qq[k] >= want[k], "grid is too small" );
                                    }
                                    expect( uint64_t( b.x ) * b.y * b.z <= unsigned( threads ), "block has too many threads" );
                                    ++ctx().compared;
                                }
                            }
                }
                cudaEmu::state() = old;
                fresh();
            }
}

// ------------------------------------------------------------------------------------------------ transforms
typedef std::complex<double> Complex;
static std::vector<Complex> transform( const std::vector<Complex> & v, uint32_t w, uint32_t h, int direction )
{
    std::vector<Complex> r( v.size() );
    for ( uint32_t l = 0; l < h; ++l )
        for ( uint32_t k = 0; k < w; ++k )
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    r[l * w + k] += v[y * w + x] * std::polar( 1.0, direction * 2 * M_PI * ( double( x * k % w ) / w + double( y * l % h ) / h ) );
    return r;
}
static std::vector<Complex> values( const FFT_Cuda::ComplexData & d )
{
    std::vector<Complex> v;
    if ( d.empty() )
        return v;
    const Bytes b = get( d.data(), size_t( d.width() ) * d.height() * sizeof( cufftComplex ) );
    for ( size_t i = 0; i < b.size(); i += sizeof( cufftComplex ) ) {
        cufftComplex c;
        memcpy( &c, &b[i], sizeof c );
        v.push_back( Complex( c.x, c.y ) );
    }
    return v;
}
static void near( const std::vector<Complex> & a, const std::vector<Complex> & b, const char * what )
{
    ++ctx().compared;
    if ( a.size() != b.size() )
        fail( "%s: %zu values instead of %zu", what, a.size(), b.size() );
    else
        for ( size_t i = 0; i < a.size(); ++i )
            if ( std::abs( a[i] - b[i] ) > 1e-4 * ( 1 + std::abs( b[i] ) ) + 1e-2 ) {
                fail( "%s: value %zu is %g%+gi instead of %g%+gi", what, i, a[i].real(), a[i].imag(), b[i].real(), b[i].imag() );
                return;
            }
}

static void transforms()
{
    const uint32_t top = ctx().thorough ? 9 : 6;
    for ( uint32_t w = 1; w <= top; ++w )
        for ( uint32_t h = 1; h <= top; ++h ) {
            if ( !next() )
                continue;
            label( "transforms of %ux%u", w, h );
            for ( int al : { 1, 4, 7 } )
                for ( int stream = 0; stream < 2; ++stream ) {
                    phase( "alignment %d stream %d", al, stream );
                    fresh( stream );
                    Image host( w, h, 1, uint8_t( al ) ), kernel( w, h, 1, uint8_t( al ) );
                    std::vector<Complex> a, b;
                    Bytes pa, pb; // padding has another content
                    for ( uint32_t i = 0; i < host.rowSize() * h; ++i ) {
                        pa.push_back( uint8_t( i * 29 + 7 ) );
                        pb.push_back( uint8_t( i % 5 ) );
                    }
                    for ( uint32_t y = 0; y < h; ++y )
                        for ( uint32_t x = 0; x < w; ++x ) {
                            a.push_back( pa[y * host.rowSize() + x] );
                            b.push_back( pb[y * host.rowSize() + x] );
                        }
                    Image da = penguinV::ImageCuda().generate( w, h, 1, uint8_t( al ) ), db = penguinV::ImageCuda().generate( w, h, 1, uint8_t( al ) );
                    put( da.data(), pa );
                    put( db.data(), pb );
                    ++ctx().calls;
                    FFT_Cuda::ComplexData ca( da ), cb( db );
                    near( values( ca ), a, "data of an image" );
                    FFT_Cuda::ComplexData copy( ca );
                    near( values( copy ), a, "copy of data" );
                    {
                        // quadrants are exchanged: the central pixel moves to the beginning
                        const Image r = ca.get();
                        expect( r.width() == w && r.height() == h && r.type() == 1, "wrong size of the image" );
                        const Bytes p = get( r.data(), bytes( r ) );
                        for ( uint32_t y = 0; y < h; ++y )
                            for ( uint32_t x = 0; x < w; ++x ) {
                                const uint32_t ox = ( x + w - w / 2 ) % w, oy = ( y + h - h / 2 ) % h;
                                const int value = int( a[y * w + x].real() / ( w * h ) + 0.5 ), got = p[oy * r.rowSize() + ox];
                                if ( std::abs( value - got ) > 1 || ( std::fabs( a[y * w + x].real() / ( w * h ) + 0.5 - std::floor( a[y * w + x].real() / ( w * h ) + 0.5 ) ) > 1e-4 && value != got ) )
                                    fail( "pixel %u,%u of the image is %d instead of %d", ox, oy, got, value );
                            }
                        ++ctx().compared;
                    }
                    multiCuda::Array<float> array( std::vector<float>( size_t( w ) * h, 2.5f ) );
                    copy.set( array );
                    near( values( copy ), std::vector<Complex>( size_t( w ) * h, 2.5 ), "data of an array" );

                    FFT_Cuda::FFTExecutor ex( w, h );
                    ex.directTransform( ca );
                    ex.directTransform( cb );
                    const std::vector<Complex> fa = transform( a, w, h, -1 ), fb = transform( b, w, h, -1 );
                    near( values( ca ), fa, "direct transform" );
                    std::vector<Complex> product( a.size() );
                    for ( size_t i = 0; i < a.size(); ++i )
                        product[i] = fa[i] * fb[i];
                    FFT_Cuda::ComplexData out( ca );
                    ex.complexMultiplication( ca, cb, out );
                    near( values( out ), product, "product" );
                    // an executor of another or no size multiplies as well
                    FFT_Cuda::FFTExecutor other( w + 1, h ), none;
                    FFT_Cuda::ComplexData out2( cb );
                    other.complexMultiplication( ca, cb, out2 );
                    near( values( out2 ), product, "product by an executor of another size" );
                    ex.complexMultiplication( ca, cb, ca );
                    near( values( ca ), product, "product in place" );
                    ex.inverseTransform( ca, out );
                    near( values( out ), transform( product, w, h, 1 ), "inverse transform" );
                    // wrong sizes
                    for ( int what = 0; what < 6; ++what ) {
                        bool threw = false;
                        FFT_Cuda::ComplexData empty;
                        ++ctx().calls;
                        try {
                            if ( what == 0 )
                                other.directTransform( ca );
                            else if ( what == 1 )
                                none.directTransform( ca );
                            else if ( what == 2 )
                                ex.directTransform( empty );
                            else if ( what == 3 )
                                ex.inverseTransform( ca, empty );
                            else if ( what == 4 )
                                ex.complexMultiplication( empty, empty, empty );
                            else
                                ca.set( Image() );
                        }
                        catch ( const penguinVException & ) {
                            threw = true;
                            ++ctx().refused;
                        }
                        expect( threw, "wrong size was accepted" );
                    }
                    manager().device().synchronize();
                }
        }
    // filtering is a circular convolution with the kernel of the host function
    for ( uint32_t w = 3; w <= top + 2; ++w )
        for ( uint32_t h = 3; h <= top + 2; ++h ) {
            if ( !next() )
                continue;
            label( "Gaussian of %ux%u", w, h );
            for ( uint32_t size = 1; size <= ( std::min( w, h ) - 1 ) / 2; ++size )
                for ( float sigma : { 0.3f, 1.0f, 5.0f } )
                    for ( int al : { 1, 4 } )
                        for ( int form = 0; form < 2; ++form ) {
                            phase( "kernel %u sigma %g alignment %d form %d", size, double( sigma ), al, form );
                            fresh( form );
                            Image in = penguinV::ImageCuda().generate( w, h, 1, uint8_t( al ) ), out = penguinV::ImageCuda().generate( w, h, 1, uint8_t( al ) );
                            const Bytes p = pattern( bytes( in ), size );
                            put( in.data(), p );
                            put( out.data(), pattern( bytes( out ), 9 ) );
                            ++ctx().calls;
                            Image r = form ? Image_Function_Cuda::Gaussian( in, size, sigma ) : Image();
                            if ( !form )
                                Image_Function_Cuda::Gaussian( in, out, size, sigma );
                            const Image & result = form ? r : out;
                            expect( result.width() == w && result.height() == h && result.type() == 1 && ( form || result.alignment() == al ), "wrong geometry of the result" );
                            if ( result.width() != w || result.height() != h )
                                continue;
                            const Bytes q = get( result.data(), bytes( result ) );
                            double total = 0;
                            std::vector<double> weight;
                            for ( int dy = -int( size ); dy <= int( size ); ++dy )
                                for ( int dx = -int( size ); dx <= int( size ); ++dx ) {
                                    weight.push_back( std::exp( -double( dx * dx + dy * dy ) / ( 2 * double( sigma ) ) ) );
                                    total += weight.back();
                                }
                            for ( uint32_t y = 0; y < h; ++y )
                                for ( uint32_t x = 0; x < w; ++x ) {
                                    double sum = 0;
                                    size_t k = 0;
                                    for ( int dy = -int( size ); dy <= int( size ); ++dy )
                                        for ( int dx = -int( size ); dx <= int( size ); ++dx )
                                            sum += weight[k++] * p[( y + h + uint32_t( dy ) ) % h * in.rowSize() + ( x + w + uint32_t( dx ) ) % w];
                                    sum = sum / total + 0.5;
                                    const int got = q[y * result.rowSize() + x];
                                    if ( got < std::floor( sum - 2e-2 ) || got > std::floor( sum + 2e-2 ) )
                                        fail( "pixel %u,%u is %d instead of %g", x, y, got, sum );
                                }
                            ++ctx().compared;
                        }
        }
}

// ------------------------------------------------------------------------------------------------ pinned images
static void pinned()
{
    if ( !next() )
        return;
    label( "pinned images" );
    {
        Image a = penguinV::ImageCudaPinned().generate( 3, 2, 1, 4 );
        expect( a.type() == 2 && a.rowSize() == 4 && cudaEmu::hostBlocks() == 1, "wrong pinned image" );
        a.fill( 5 );
        Image b( a );
        b.fill( 6 );
        penguinV::ImageCudaPinned c( 2, 2 ), d( c ), e;
        c.fill( 1 );
        e = c;
        c.fill( 2 );
        expect( a.data()[0] == 5 && b.data()[0] == 6 && e.data()[0] == 1 && d.type() == 2 && e.type() == 2, "pinned images share their memory" );
        e = std::move( d );
        a = e;
        expect( a.width() == 2 && a.type() == 2, "wrong assignment of pinned image" );
        for ( uint64_t k = 1; k < 10; ++k ) {
            bool threw = false;
            arm( k );
            try {
                Image f = penguinV::ImageCudaPinned().generate( 3, 3 );
                Image g( f );
            }
            catch ( const std::exception & ) {
                threw = true;
                ++ctx().refused;
            }
            const std::string failed = disarm();
            expect( threw == ( failed == "cudaMallocHost" ), "failure of CUDA was not reported" );
            ++ctx().calls;
            ++ctx().compared;
            if ( failed.empty() || failed == "cudaFreeHost" )
                break;
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    cudaEmu::state().devices = 2;
    fresh();
    ImageTypeManager::instance().enableIntertypeConversion( true );
    const std::string only = ctx().args.empty() ? "" : ctx().args[0];
    const std::pair<const char *, void ( * )()> parts[] = { { "allocator", allocatorSequences }, { "images", imageSequences }, { "types", typeSequences }, { "failures", failures },
                                                           { "devices", devices }, { "grids", grids }, { "transforms", transforms }, { "pinned", pinned } };
    for ( const auto & p : parts )
        if ( only.empty() || only == p.first )
            try {
                p.second();
            }
            catch ( const std::exception & e ) {
                fail( "unexpected exception: %s", e.what() );
            }
    vp::finish();
    return 0;
}
