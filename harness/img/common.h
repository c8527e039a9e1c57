// Enumeration of operands and regions, one call with its observable effects, and comparison with the reference.
#pragma once
#include "ops.h"
#include <memory>

using namespace vp;

typedef std::unique_ptr<Image> Img;

struct Dim
{
    uint32_t w, h;
    uint8_t cc, al;
};

inline uint8_t mix( uint32_t k, uint32_t i )
{
    uint32_t v = ( i + 1 ) * 2654435761u ^ ( k + 1 ) * 0x9E3779B9u;
    v ^= v >> 15;
    v *= 0x85EBCA6Bu;
    v ^= v >> 13;
    return uint8_t( v >> 8 );
}

enum Content
{
    HASH,
    EXTREME, // 0, 255 and their neighbours
    FEW, // few different values close to each other
    BINARY_VALUES,
    SAME, // equal content in all operands
    WHITE
};

inline void fillImage( Image & im, uint32_t k, Content c, uint32_t salt = 0 )
{
    static const uint8_t ext[8] = { 0, 255, 1, 254, 0, 255, 127, 128 };
    for ( uint32_t y = 0; y < im.height(); ++y )
        for ( uint32_t i = 0; i < im.rowSize(); ++i ) {
            const bool pad = i >= im.width() * im.colorCount();
            const uint8_t m = mix( k + salt * 31 + ( pad ? 77 : 0 ), y * 4099 + i );
            uint8_t v = m;
            if ( !pad && c == EXTREME )
                v = ext[m & 7];
            else if ( !pad && c == FEW )
                v = uint8_t( 100 + m % 3 );
            else if ( !pad && c == BINARY_VALUES )
                v = m & 32 ? 255 : 0;
            else if ( !pad && c == SAME )
                v = mix( 5, y * 4099 + i );
            if ( !pad && c == WHITE )
                v = 255;
            im.data()[size_t( y ) * im.rowSize() + i] = v;
        }
}

inline Img make( const Dim & d )
{
    Img i( new Image );
    i->setColorCount( d.cc );
    i->setAlignment( d.al );
    i->resize( d.w, d.h );
    return i;
}

struct Result
{
    bool threw = false;
    std::vector<Snap> ops; // operands after the call
    Snap ret;
    Vec vec;
    uint64_t num = 0;
};

extern std::vector<Op> OPS;

inline std::vector<Snap> snaps( const Args & a )
{
    std::vector<Snap> s;
    for ( Image * i : a.im )
        s.push_back( snap( *i ) );
    return s;
}

inline Result call( const Impl & impl, Args a )
{
    Result r;
    ++ctx().calls;
    try {
        impl.call( a );
    }
    catch ( const penguinVException & ) {
        r.threw = true;
        ++ctx().refused;
    }
    catch ( const std::exception & e ) {
        fail( "unexpected exception: %s", e.what() );
    }
    r.ops = snaps( a );
    r.ret = snap( a.ret );
    r.vec = a.vec;
    r.num = a.num;
    return r;
}

inline std::string describe( const Op & op, const Impl & impl, const Args & a )
{
    char b[400];
    std::string s = std::string( name( impl.bk ) ) + "::" + op.name + " " + name( impl.form );
    for ( size_t k = 0; k < a.im.size(); ++k ) {
        snprintf( b, sizeof b, "%s%ux%ux%u(row %u)@%u,%u", k ? "," : " ", a.im[k]->width(), a.im[k]->height(), a.im[k]->colorCount(), a.im[k]->rowSize(), a.x[k], a.y[k] );
        s += b;
    }
    snprintf( b, sizeof b, " region %ux%u", a.w, a.h );
    s += b;
    if ( a.ow || a.oh ) {
        snprintf( b, sizeof b, " out %ux%u", a.ow, a.oh );
        s += b;
    }
    snprintf( b, sizeof b, " p=%d,%d,%u,%u,%u,%u,%g,%g,%g,%g,%g table=%zu vec=%zu", a.b0, a.b1, a.u0, a.u1, a.n0, a.n1, a.d0, a.d1, a.d2, a.d3, a.d4, a.table.size(), a.vec.size() );
    s += b;
    return s;
}

// which instruction sets are enabled
enum SimdMode
{
    ALL,
    AVX512,
    AVX,
    SSE,
    NEON,
    NONE
};
inline const char * name( SimdMode m )
{
    static const char * n[] = { "all instruction sets", "AVX-512", "AVX", "SSE", "NEON", "no vector instructions" };
    return n[m];
}
inline void setMode( SimdMode m )
{
    simd::EnableSimd( m == ALL );
    if ( m == AVX512 )
        simd::EnableAvx512( true );
    else if ( m == AVX )
        simd::EnableAvx( true );
    else if ( m == SSE )
        simd::EnableSse( true );
    else if ( m == NEON )
        simd::EnableNeon( true );
}
inline const std::vector<SimdMode> & availableModes()
{
    static std::vector<SimdMode> v;
    if ( v.empty() ) {
        const std::pair<SimdMode, simd::SIMDType> all[] = { { AVX512, simd::avx512_function }, { AVX, simd::avx_function }, { SSE, simd::sse_function }, { NEON, simd::neon_function } };
        for ( auto & m : all ) {
            setMode( m.first );
            if ( simd::actualSimdType() == m.second )
                v.push_back( m.first );
        }
        v.push_back( NONE );
        setMode( ALL );
        std::string text;
        for ( SimdMode m : v )
            text += std::string( text.empty() ? "" : ", " ) + name( m );
        printf( "NOTE instruction sets of this machine: %s\n", text.c_str() );
    }
    return v;
}
inline const std::vector<SimdMode> & modesOf( Backend b )
{
    static const std::vector<SimdMode> one( 1, ALL );
    return b == SIMD || b == AUTO ? availableModes() : one;
}

// the parts of the expected outcome to be compared
enum
{
    PIXELS = 1,
    SURROUNDINGS = 2
};

inline int firstOut( const Op & op )
{
    return op.inplace ? 0 : op.ins;
}

// Compares the outcome of a valid call with the reference
inline void checkAgainstReference( const Op & op, const Impl & impl, const Args & a, const std::vector<Snap> & before, const Result & r, int what )
{
    if ( r.threw ) {
        if ( what & PIXELS )
            fail( "valid call was refused" );
        return;
    }
    const Ref ref{ a, before, a.w, a.h };
    uint32_t ow, oh;
    op.outSize( a, a.w, a.h, ow, oh );
    const bool ret = impl.form == ROI_RET || impl.form == FULL_RET;
    const uint8_t occ = op.outs ? op.outColour( ref ) : 0;
    const int fo = firstOut( op );

    if ( what & PIXELS ) {
        ++ctx().compared;
        if ( op.vec ) {
            Vec e;
            op.vec( ref, e );
            if ( e != r.vec ) {
                size_t i = 0;
                while ( i < e.size() && i < r.vec.size() && e[i] == r.vec[i] )
                    ++i;
                fail( "wrong result: %zu values, expected %zu; first difference at %zu: %u, expected %u", r.vec.size(), e.size(), i, i < r.vec.size() ? r.vec[i] : 0,
                      i < e.size() ? e[i] : 0 );
            }
        }
        else if ( op.num ) {
            const uint64_t e = op.num( ref );
            if ( e != r.num )
                fail( "wrong result %llu, expected %llu", (unsigned long long)r.num, (unsigned long long)e );
        }
        else {
            if ( ret && ( r.ret.w != ow || r.ret.h != oh || r.ret.cc != occ ) )
                fail( "created image is %ux%u with %u channels, expected %ux%u with %u", r.ret.w, r.ret.h, r.ret.cc, ow, oh, occ );
            const int n = ret ? 1 : op.outs;
            for ( int k = 0; k < n; ++k ) {
                const Snap & o = ret ? r.ret : r.ops[fo + k];
                const uint32_t ox = ret ? 0 : a.x[fo + k], oy = ret ? 0 : a.y[fo + k];
                for ( uint32_t y = 0; y < oh; ++y )
                    for ( uint32_t x = 0; x < ow; ++x )
                        for ( uint32_t c = 0; c < o.cc; ++c ) {
                            int lo, hi;
                            op.pixel( ref, k, x, y, c, lo, hi );
                            const int v = o.at( ox + x, oy + y, c );
                            if ( v < lo || v > hi )
                                fail( "wrong pixel %u,%u channel %u of output %d: %d, expected %d..%d", x, y, c, k, v, lo, hi );
                        }
            }
        }
    }
    if ( what & SURROUNDINGS ) {
        ++ctx().compared;
        for ( size_t k = 0; k < before.size(); ++k ) {
            const bool isOut = int( k ) >= fo && int( k ) < fo + op.outs && !ret;
            const Snap &p = before[k], &q = r.ops[k];
            if ( p.w != q.w || p.h != q.h || p.cc != q.cc || p.row != q.row || p.d.size() != q.d.size() )
                fail( "geometry of operand %zu changed: %ux%ux%u row %u -> %ux%ux%u row %u", k, p.w, p.h, p.cc, p.row, q.w, q.h, q.cc, q.row );
            else if ( p.d != q.d ) {
                for ( size_t i = 0; i < p.d.size(); ++i ) {
                    const uint32_t y = uint32_t( i / p.row ), b = uint32_t( i % p.row );
                    const bool roi = isOut && y >= a.y[k] && y < a.y[k] + oh && b >= a.x[k] * p.cc && b < ( a.x[k] + ow ) * p.cc;
                    if ( !roi && p.d[i] != q.d[i] )
                        fail( "byte %u of row %u of operand %zu (%s), outside of the region of interest, changed from %u to %u", b, y, k, isOut ? "output" : "input", p.d[i],
                              q.d[i] );
                }
            }
        }
    }
}

// is the call valid according to the documentation
inline bool valid( const Op & op, const Impl & impl, const Args & a )
{
    const bool ret = impl.form == ROI_RET || impl.form == FULL_RET;
    const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
    std::vector<uint8_t> cc;
    for ( Image * i : a.im ) {
        if ( i->empty() || ( i->colorCount() != 1 && i->colorCount() != 3 && i->colorCount() != 4 ) )
            return false;
        cc.push_back( i->colorCount() );
    }
    if ( !op.colours( cc ) )
        return false;
    uint32_t w = a.w, h = a.h;
    if ( full ) {
        w = a.im[0]->width();
        h = a.im[0]->height();
    }
    if ( w == 0 || h == 0 )
        return false;
    uint32_t ow, oh;
    op.outSize( a, w, h, ow, oh );
    const int fo = firstOut( op );
    for ( size_t k = 0; k < a.im.size(); ++k ) {
        const bool isOut = int( k ) >= fo && !op.inplace && op.outs > 0;
        const uint64_t rw = isOut ? ow : w, rh = isOut ? oh : h;
        if ( full ) {
            if ( !( isOut && op.sizesFree ) && ( a.im[k]->width() != rw || a.im[k]->height() != rh ) )
                return false;
        }
        else if ( rw == 0 || rh == 0 || a.x[k] + rw > a.im[k]->width() || a.y[k] + rh > a.im[k]->height() )
            return false;
    }
    if ( op.sizesFree && ( impl.form != FULL_OUT ) && ( a.ow == 0 || a.oh == 0 ) )
        return false;
    (void)ret;
    return op.params( a, w, h ) || ( op.sizesFree && impl.form == FULL_OUT );
}

// operands of a call: images of given dimensions; for returning forms the outputs are left out
struct Operands
{
    std::vector<Img> own;
    Args args;
    Operands( const Op & op, const Impl & impl, const std::vector<Dim> & dims, Content content )
    {
        const bool ret = impl.form == ROI_RET || impl.form == FULL_RET;
        const int n = op.inplace ? 1 : op.ins + ( ret ? 0 : op.outs );
        for ( int k = 0; k < n; ++k ) {
            own.push_back( make( dims[size_t( k )] ) );
            if ( !own.back()->empty() )
                fillImage( *own.back(), uint32_t( k ), content );
            args.im.push_back( own.back().get() );
        }
    }
};

inline void setParams( Args & to, const Args & from )
{
    Args keep = to;
    to = from;
    to.im = keep.im;
    memcpy( to.x, keep.x, sizeof to.x );
    memcpy( to.y, keep.y, sizeof to.y );
    to.w = keep.w;
    to.h = keep.h;
}

inline int operandCount( const Op & op )
{
    return op.inplace ? 1 : op.ins + op.outs;
}

// all valid combinations of channel counts of inputs and outputs
inline std::vector<std::vector<uint8_t>> colourSets( const Op & op, const std::vector<uint8_t> & values = { 1, 3, 4 } )
{
    std::vector<std::vector<uint8_t>> sets;
    const int n = operandCount( op );
    std::vector<size_t> i( n, 0 );
    for ( ;; ) {
        std::vector<uint8_t> c;
        for ( int k = 0; k < n; ++k )
            c.push_back( values[i[k]] );
        if ( op.colours( c ) )
            sets.push_back( c );
        int k = 0;
        while ( k < n && ++i[k] == values.size() )
            i[k++] = 0;
        if ( k == n )
            return sets;
    }
}

inline Content contentFor( const Op & op, int i )
{
    if ( op.name == "BinaryDilate" || op.name == "BinaryErode" )
        return BINARY_VALUES;
    if ( op.name == "IsBinary" )
        return i % 2 ? BINARY_VALUES : FEW;
    if ( op.name == "IsEqual" )
        return i % 2 ? SAME : FEW;
    if ( op.name == "HistogramMask" )
        return i % 2 ? EXTREME : HASH;
    if ( op.name == "Normalize" )
        return i % 2 ? FEW : HASH;
    return i % 2 ? EXTREME : HASH;
}

inline void prepare( const Op & op, const Impl & impl, Args & a )
{
    if ( op.name == "Rotate" && ( impl.form == ROI_RET || impl.form == FULL_RET ) ) {
        a.d2 = a.d0;
        a.d3 = a.d1;
    }
    if ( op.sizesFree && impl.form == FULL_OUT ) {
        a.ow = a.im[1]->width();
        a.oh = a.im[1]->height();
    }
}

// ------------------------------------------------------------------------------------------------ region enumeration
typedef std::function<void( const Op &, const Impl &, Args &, const std::vector<Snap> & before )> Visitor;

// a region form: every region of the given images at every position of every operand
inline void allRegions( const Op & op, const Impl & impl, const std::vector<Dim> & dims, Content content, const Visitor & visit, bool allVariants )
{
    Operands o( op, impl, dims, content );
    std::vector<Img> backup;
    for ( auto & i : o.own )
        backup.push_back( Img( new Image( *i ) ) );
    const std::vector<Snap> before = snaps( o.args );
    const int fo = firstOut( op );
    const uint32_t W = dims[0].w, H = dims[0].h;
    for ( uint32_t w = 1; w <= W; ++w )
        for ( uint32_t h = 1; h <= H; ++h ) {
            const std::vector<Args> vars = op.variants( w, h, dims[0].cc );
            for ( size_t vi = 0; vi < vars.size(); ++vi ) {
                Args a = o.args;
                a.w = w;
                a.h = h;
                setParams( a, vars[vi] );
                prepare( op, impl, a );
                uint32_t ow, oh;
                op.outSize( a, w, h, ow, oh );
                // number of positions of each operand
                uint32_t nx[MAXIM], ny[MAXIM];
                const int n = int( a.im.size() );
                bool fits = true;
                for ( int k = 0; k < n; ++k ) {
                    const bool isOut = !op.inplace && k >= fo;
                    const uint32_t rw = isOut ? ow : w, rh = isOut ? oh : h;
                    if ( rw > a.im[k]->width() || rh > a.im[k]->height() ) {
                        fits = false;
                        break;
                    }
                    nx[k] = a.im[k]->width() - rw + 1;
                    ny[k] = a.im[k]->height() - rh + 1;
                }
                if ( !fits )
                    continue;
                uint64_t number = 0;
                for ( ;; ) {
                    // with many parameter sets each position gets some of them, and the extreme positions all
                    bool edge = true;
                    for ( int k = 0; k < n; ++k )
                        edge = edge && ( a.x[k] == 0 || a.x[k] + 1 == nx[k] ) && ( a.y[k] == 0 || a.y[k] + 1 == ny[k] );
                    if ( allVariants || vars.size() <= 4 || edge || number % vars.size() == vi )
                        visit( op, impl, a, before );
                    ++number;
                    for ( int k = 0; k < n; ++k )
                        if ( memcmp( a.im[k]->data(), backup[k]->data(), before[k].d.size() ) != 0 )
                            memcpy( a.im[k]->data(), backup[k]->data(), before[k].d.size() );
                    int k = 0;
                    for ( ; k < n; ++k ) {
                        if ( ++a.x[k] < nx[k] )
                            break;
                        a.x[k] = 0;
                        if ( ++a.y[k] < ny[k] )
                            break;
                        a.y[k] = 0;
                    }
                    if ( k == n )
                        break;
                }
            }
        }
}

// a whole image form
inline void wholeImage( const Op & op, const Impl & impl, const std::vector<Dim> & dims, Content content, const Visitor & visit )
{
    for ( const Args & v : op.variants( dims[0].w, dims[0].h, dims[0].cc ) ) {
        Args probe = v;
        uint32_t ow, oh;
        op.outSize( probe, dims[0].w, dims[0].h, ow, oh );
        std::vector<Dim> d = dims;
        for ( int k = firstOut( op ); !op.inplace && k < operandCount( op ); ++k ) {
            d[k].w = ow;
            d[k].h = oh;
        }
        Operands o( op, impl, d, content );
        Args a = o.args;
        setParams( a, v );
        a.w = dims[0].w;
        a.h = dims[0].h;
        prepare( op, impl, a );
        visit( op, impl, a, snaps( a ) );
    }
}

static const char * GROUPS[][12] = { { "C10", "AbsoluteDifference BitwiseAnd BitwiseOr BitwiseXor Maximum Minimum Subtract Invert Threshold ThresholdRange GammaCorrection LookupTable Fill" },
                                     { "C11", "Copy Flip Transpose Resize Shift Rotate" },
                                     { "C12", "ConvertToGrayScale ConvertToRgb ExtractChannel RgbToBgr RgbToRgba RgbaToRgb Merge Split ReplaceChannel" },
                                     { "C13", "Normalize Sum IsBinary IsEqual Histogram HistogramMask ProjectionProfile Accumulate" },
                                     { "C17", "Median Prewitt Sobel BinaryDilate BinaryErode" } };

inline bool inGroup( const std::string & prop, const std::string & op )
{
    for ( auto & g : GROUPS )
        if ( prop == g[0] )
            return ( std::string( " " ) + g[1] + " " ).find( " " + op + " " ) != std::string::npos;
    return false;
}

// region sizes for the exhaustive enumeration of positions
inline std::vector<std::vector<Dim>> regionDims( const Op & op, const std::vector<uint8_t> & cc )
{
    const int n = operandCount( op );
    std::vector<std::vector<Dim>> out;
    const bool deep = ctx().thorough;
    std::vector<std::pair<uint32_t, uint32_t>> in;
    if ( n <= 1 )
        in = { { 6, 5 } };
    else if ( n == 2 )
        in = { { 4, 4 } };
    else
        in = { { 3, 2 }, { 2, 3 } };
    if ( deep )
        in = n <= 1 ? std::vector<std::pair<uint32_t, uint32_t>>{ { 8, 8 } } : n == 2 ? std::vector<std::pair<uint32_t, uint32_t>>{ { 6, 5 }, { 5, 6 } } : std::vector<std::pair<uint32_t, uint32_t>>{ { 3, 3 }, { 4, 2 } };
    if ( op.name == "Median" || op.name == "Prewitt" || op.name == "Sobel" )
        in = { { 6, 5 } };
    if ( op.name.compare( 0, 6, "Binary" ) == 0 )
        in = { { 7, 4 }, { 4, 7 }, { 1, 5 } };
    for ( auto & d : in )
        for ( int align = 0; align < ( 1 << n ); ++align ) {
            std::vector<Dim> dims;
            for ( int k = 0; k < n; ++k ) {
                Dim x{ d.first, d.second, cc[k], uint8_t( align >> k & 1 ? ( k % 2 ? 8 : 5 ) : 1 ) };
                const bool isOut = !op.inplace && k >= firstOut( op ) && op.outs;
                if ( isOut && n == 2 )
                    x.w += 1;
                if ( isOut && op.name == "Transpose" )
                    std::swap( x.w, x.h );
                dims.push_back( x );
            }
            out.push_back( dims );
        }
    return out;
}

// ------------------------------------------------------------------------------------------------ differential checks
inline const char * difference( const Result & a, const Result & b )
{
    if ( a.threw != b.threw )
        return a.threw ? "this implementation refuses the call" : "this implementation accepts the call";
    if ( a.vec != b.vec )
        return "the vector results differ";
    if ( a.num != b.num )
        return "the values differ";
    if ( a.ret.w != b.ret.w || a.ret.h != b.ret.h || a.ret.cc != b.ret.cc )
        return "the created images have different size or channel count";
    for ( uint32_t y = 0; y < a.ret.h; ++y )
        if ( memcmp( &a.ret.d[size_t( y ) * a.ret.row], &b.ret.d[size_t( y ) * b.ret.row], a.ret.w * a.ret.cc ) != 0 )
            return "the created images differ";
    for ( size_t k = 0; k < a.ops.size(); ++k ) {
        if ( a.ops[k].w != b.ops[k].w || a.ops[k].h != b.ops[k].h || a.ops[k].cc != b.ops[k].cc || a.ops[k].row != b.ops[k].row )
            return "the operands have different size afterwards";
        if ( a.ops[k].d != b.ops[k].d )
            return "the operands differ afterwards";
    }
    return nullptr;
}

struct Restore
{
    Args & a;
    std::vector<Snap> s;
    explicit Restore( Args & args )
        : a( args )
        , s( snaps( args ) )
    {}
    void operator()() const
    {
        for ( size_t k = 0; k < s.size(); ++k )
            if ( !s[k].d.empty() )
                memcpy( a.im[k]->data(), s[k].d.data(), s[k].d.size() );
    }
};

// runs the same call with two implementations
inline void compareImpls( const Op & op, const Impl & impl, const Impl & plain, const Args & a, const Result & expected, const Restore & restore, const char * how )
{
    phase( "%s %.180s", how, describe( op, impl, a ).c_str() );
    const Result got = call( impl, a );
    restore();
    ++ctx().compared;
    if ( const char * d = difference( got, expected ) )
        fail( "%s, compared with %s", d, name( plain.bk ) );
}

// the plain implementation to compare with: the same form, or for functions returning a value the same function
inline const Impl * plainOf( const Op & op, const Impl & impl )
{
    return op.find( CPU, impl.form );
}

// ------------------------------------------------------------------------------------------------ C12: 16 bit images
inline Image16Bit make16( uint32_t w, uint32_t h, uint8_t cc, uint8_t al )
{
    Image16Bit i( w, h, cc, al );
    for ( uint32_t k = 0; k < i.rowSize() * i.height(); ++k )
        i.data()[k] = uint16_t( mix( 3, k ) << 8 | mix( 4, k ) );
    return i;
}

struct Bits
{
    const char * n;
    Image16Bit ( *to16ret )( const Image & );
    void ( *to16out )( const Image &, Image16Bit & );
    Image16Bit ( *to16roi )( const Image &, uint32_t, uint32_t, uint32_t, uint32_t );
    void ( *to16 )( const Image &, uint32_t, uint32_t, Image16Bit &, uint32_t, uint32_t, uint32_t, uint32_t );
    Image ( *to8ret )( const Image16Bit & );
    void ( *to8out )( const Image16Bit &, Image & );
    Image ( *to8roi )( const Image16Bit &, uint32_t, uint32_t, uint32_t, uint32_t );
    void ( *to8 )( const Image16Bit &, uint32_t, uint32_t, Image &, uint32_t, uint32_t, uint32_t, uint32_t );
};
static const Bits BITS[2] = { { "Image_Function", Image_Function::ConvertTo16Bit, Image_Function::ConvertTo16Bit, Image_Function::ConvertTo16Bit, Image_Function::ConvertTo16Bit,
                                Image_Function::ConvertTo8Bit, Image_Function::ConvertTo8Bit, Image_Function::ConvertTo8Bit, Image_Function::ConvertTo8Bit },
                              { "Image_Function_Simd", Image_Function_Simd::ConvertTo16Bit, Image_Function_Simd::ConvertTo16Bit, Image_Function_Simd::ConvertTo16Bit,
                                Image_Function_Simd::ConvertTo16Bit, Image_Function_Simd::ConvertTo8Bit, Image_Function_Simd::ConvertTo8Bit, Image_Function_Simd::ConvertTo8Bit,
                                Image_Function_Simd::ConvertTo8Bit } };

template <typename T>
inline bool sameOutside( const penguinV::ImageTemplate<T> & p, const penguinV::ImageTemplate<T> & q, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
{
    for ( uint32_t j = 0; j < p.height(); ++j )
        for ( uint32_t i = 0; i < p.rowSize(); ++i ) {
            const bool roi = j >= y && j < y + h && i >= x * p.colorCount() && i < ( x + w ) * p.colorCount();
            if ( !roi && p.data()[j * p.rowSize() + i] != q.data()[j * q.rowSize() + i] )
                return false;
        }
    return true;
}

void exactProperty( const std::string & prop );
void bigImages( const std::string & prop );
void independence();
void rejection();
void allValues();
void bitRegions( const Bits & b, int what );
void bitForms( bool agree, bool reject );
void simdEqual();
void poolEqual();
void agreement();
void geometryExtras();
void channelExtras();
void thresholdExtras();
void binaryExtras();
void morphologyExtras();
void wideWindows();
void decisionCases( const Op & op, const Impl & impl, uint32_t W, uint32_t H, const char * prefix, const std::function<void( const Op &, const Impl &, Args & )> & judge );
