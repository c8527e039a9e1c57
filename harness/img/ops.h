// Table of the image functions: how to call every form of every implementation, which calls are valid, and what they must compute.
// The reference is written from the documented meaning of each function, pixel by pixel, and shares no code with the library.
#pragma once
#include "filtering.h"
#include "function_pool.h"
#include "image_buffer.h"
#include "image_function.h"
#include "image_function_helper.h"
#include "image_function_simd.h"
#include "penguinv/penguinv.h"
#include "thread_pool.h"
#include "vp.h"
#include <cmath>
#include <functional>

using penguinV::Image;
using penguinV::Image16Bit;
typedef std::vector<uint32_t> Vec;

enum Form
{
    ROI_OUT,
    FULL_OUT,
    ROI_RET,
    FULL_RET
};
enum Backend
{
    CPU,
    SIMD,
    POOL,
    AUTO,
    OPENCL,
    CUDA
};
inline const char * name( Form f )
{
    static const char * n[] = { "region->given image", "image->given image", "region->new image", "image->new image" };
    return n[f];
}
inline const char * name( Backend b )
{
    static const char * n[] = { "Image_Function", "Image_Function_Simd", "Function_Pool", "penguinV", "Image_Function_OpenCL", "Image_Function_Cuda" };
    return n[b];
}

const int MAXIM = 6;

struct Args
{
    std::vector<Image *> im; // inputs first, then outputs
    uint32_t x[MAXIM] = { 0, 0, 0, 0, 0, 0 }, y[MAXIM] = { 0, 0, 0, 0, 0, 0 };
    uint32_t w = 0, h = 0; // region of the inputs
    uint32_t ow = 0, oh = 0; // region of the output where it differs (Resize)
    bool b0 = false, b1 = false;
    uint8_t u0 = 0, u1 = 0;
    double d0 = 0, d1 = 0, d2 = 0, d3 = 0, d4 = 0;
    uint32_t n0 = 0, n1 = 0;
    std::vector<uint8_t> table;
    Vec vx, vy;

    Image ret;
    Vec vec;
    uint64_t num = 0;
};

struct Snap
{
    uint32_t w = 0, h = 0, row = 0;
    uint8_t cc = 1;
    std::vector<uint8_t> d;
    uint8_t at( uint32_t x, uint32_t y, uint32_t c = 0 ) const
    {
        return d[size_t( y ) * row + size_t( x ) * cc + c];
    }
};

inline Snap snap( const Image & i )
{
    Snap s;
    s.w = i.width();
    s.h = i.height();
    s.row = i.rowSize();
    s.cc = i.colorCount();
    if ( !i.empty() )
        s.d.assign( i.data(), i.data() + size_t( i.rowSize() ) * i.height() );
    return s;
}

struct Ref
{
    const Args & a;
    const std::vector<Snap> & s; // operands before the call
    uint32_t w, h; // region of the inputs
    uint8_t in( int k, uint32_t x, uint32_t y, uint32_t c = 0 ) const
    {
        return s[k].at( a.x[k] + x, a.y[k] + y, c );
    }
};

struct Impl
{
    Backend bk;
    Form form;
    std::function<void( Args & )> call;
};

struct Op
{
    std::string name;
    int ins = 1, outs = 1;
    bool inplace = false; // the only output is the only input
    bool neighbours = false; // the result depends on pixels around the region
    std::vector<Impl> impls;
    std::function<bool( const std::vector<uint8_t> & )> colours; // of all operands (outputs of returning forms left out)
    std::function<uint8_t( const Ref & )> outColour;
    std::function<bool( const Args &, uint32_t w, uint32_t h )> params;
    std::function<void( const Args &, uint32_t w, uint32_t h, uint32_t & ow, uint32_t & oh )> outSize;
    // lowest and highest accepted value of an output pixel
    std::function<void( const Ref &, int k, uint32_t x, uint32_t y, uint32_t c, int & lo, int & hi )> pixel;
    std::function<void( const Ref &, Vec & vec )> vec; // expected vector result
    std::function<uint64_t( const Ref & )> num; // expected scalar result
    std::function<std::vector<Args>( uint32_t w, uint32_t h, uint8_t cc )> variants; // parameter sets
    std::function<std::vector<Args>( uint32_t w, uint32_t h )> badVariants; // parameter sets to be refused
    bool sizesFree = false; // whole image form accepts any output size (Resize)

    const Impl * find( Backend b, Form f ) const
    {
        for ( const Impl & i : impls )
            if ( i.bk == b && i.form == f )
                return &i;
        return nullptr;
    }
};

#define FOR_CALL( bk, form, ... ) op.impls.push_back( Impl{ bk, form, []( Args & a ) { __VA_ARGS__; } } );

// forms of functions with one input and one output
#define U_ROI_OUT( bk, NS, F, ... ) FOR_CALL( bk, ROI_OUT, NS::F( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h __VA_OPT__(, ) __VA_ARGS__ ) )
#define U_FULL_OUT( bk, NS, F, ... ) FOR_CALL( bk, FULL_OUT, NS::F( *a.im[0], *a.im[1] __VA_OPT__(, ) __VA_ARGS__ ) )
#define U_ROI_RET( bk, NS, F, ... ) FOR_CALL( bk, ROI_RET, a.ret = NS::F( *a.im[0], a.x[0], a.y[0], a.w, a.h __VA_OPT__(, ) __VA_ARGS__ ) )
#define U_FULL_RET( bk, NS, F, ... ) FOR_CALL( bk, FULL_RET, a.ret = NS::F( *a.im[0] __VA_OPT__(, ) __VA_ARGS__ ) )
#define UNARY( bk, NS, F, ... )                                                                                                                                         \
    U_ROI_OUT( bk, NS, F, __VA_ARGS__ ) U_FULL_OUT( bk, NS, F, __VA_ARGS__ ) U_ROI_RET( bk, NS, F, __VA_ARGS__ ) U_FULL_RET( bk, NS, F, __VA_ARGS__ )

// two inputs, one output
#define BINARY( bk, NS, F )                                                                                                                                             \
    FOR_CALL( bk, ROI_OUT, NS::F( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], *a.im[2], a.x[2], a.y[2], a.w, a.h ) )                                            \
    FOR_CALL( bk, FULL_OUT, NS::F( *a.im[0], *a.im[1], *a.im[2] ) )                                                                                                     \
    FOR_CALL( bk, ROI_RET, a.ret = NS::F( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h ) )                                                              \
    FOR_CALL( bk, FULL_RET, a.ret = NS::F( *a.im[0], *a.im[1] ) )

inline bool gray2( const std::vector<uint8_t> & c )
{
    for ( uint8_t v : c )
        if ( v != 1 )
            return false;
    return true;
}
inline bool equalColours( const std::vector<uint8_t> & c )
{
    for ( uint8_t v : c )
        if ( v != c[0] )
            return false;
    return true;
}

// value v with an error of at most e before rounding to the nearest integer
inline void near( double v, double e, int & lo, int & hi )
{
    lo = int( std::floor( v - e + 0.5 ) );
    hi = int( std::floor( v + e + 0.5 ) );
    lo = lo < 0 ? 0 : lo > 255 ? 255 : lo;
    hi = hi < 0 ? 0 : hi > 255 ? 255 : hi;
}

inline Op base( const char * n, int ins, int outs )
{
    Op op;
    op.name = n;
    op.ins = ins;
    op.outs = outs;
    op.colours = equalColours;
    op.outColour = []( const Ref & r ) { return r.s[0].cc; };
    op.params = []( const Args &, uint32_t, uint32_t ) { return true; };
    op.outSize = []( const Args &, uint32_t w, uint32_t h, uint32_t & ow, uint32_t & oh ) {
        ow = w;
        oh = h;
    };
    op.variants = []( uint32_t, uint32_t, uint8_t ) { return std::vector<Args>( 1 ); };
    op.badVariants = []( uint32_t, uint32_t ) { return std::vector<Args>(); };
    return op;
}

typedef std::function<int( const Ref &, int, uint32_t, uint32_t, uint32_t )> Exact;
inline std::function<void( const Ref &, int, uint32_t, uint32_t, uint32_t, int &, int & )> exact( Exact f )
{
    return [f]( const Ref & r, int k, uint32_t x, uint32_t y, uint32_t c, int & lo, int & hi ) { lo = hi = f( r, k, x, y, c ); };
}

// results that are not images: all four forms or those returning the value
#define VECTOR( bk, NS, F, ... )                                                                                                                                        \
    FOR_CALL( bk, ROI_OUT, NS::F( *a.im[0], a.x[0], a.y[0], a.w, a.h __VA_OPT__(, ) __VA_ARGS__, a.vec ) )                                                              \
    FOR_CALL( bk, FULL_OUT, NS::F( *a.im[0] __VA_OPT__(, ) __VA_ARGS__, a.vec ) )                                                                                       \
    FOR_CALL( bk, ROI_RET, a.vec = NS::F( *a.im[0], a.x[0], a.y[0], a.w, a.h __VA_OPT__(, ) __VA_ARGS__ ) )                                                             \
    FOR_CALL( bk, FULL_RET, a.vec = NS::F( *a.im[0] __VA_OPT__(, ) __VA_ARGS__ ) )
#define SCALAR( bk, NS, F )                                                                                                                                             \
    FOR_CALL( bk, ROI_RET, a.num = NS::F( *a.im[0], a.x[0], a.y[0], a.w, a.h ) )                                                                                        \
    FOR_CALL( bk, FULL_RET, a.num = NS::F( *a.im[0] ) )

void addPixelOps( std::vector<Op> & ops );
void addGeometryOps( std::vector<Op> & ops );
void addChannelOps( std::vector<Op> & ops );
void addStatisticsOps( std::vector<Op> & ops );

inline std::vector<Op> makeOps()
{
    std::vector<Op> ops;
    addPixelOps( ops );
    addGeometryOps( ops );
    addChannelOps( ops );
    addStatisticsOps( ops );
    return ops;
}
