// Decides that the functions of a device backend compute the same as the documented meaning used for the other backends: the operands of every enumerated call are
// written to the device with their row padding, the function runs on the device, everything is read back and compared with the reference of ops.h.
// The including file defines DEVICE (backend), DEVICE_TYPE, DeviceFunctions, DeviceImage, deviceWrite(), deviceRead(), toDevice() and fromDevice().
#pragma once
#include "common.h"

std::vector<Op> OPS;
static size_t bytes( const Image & i )
{
    return size_t( i.rowSize() ) * i.height();
}

// independent of the transfer functions of the library
static Image upload( const Image & host )
{
    Image dev = DeviceImage().generate( host.width(), host.height(), host.colorCount(), host.alignment() );
    if ( dev.width() != host.width() || dev.height() != host.height() || dev.rowSize() != host.rowSize() || dev.type() != DEVICE_TYPE )
        fail( "generated device image is %ux%u row %u type %u", dev.width(), dev.height(), dev.rowSize(), dev.type() );
    if ( !host.empty() )
        deviceWrite( dev, host.data(), bytes( host ) );
    return dev;
}

static std::vector<uint8_t> content( const Image & dev )
{
    std::vector<uint8_t> v( dev.empty() ? 0 : bytes( dev ) );
    if ( !v.empty() )
        deviceRead( dev, v.data(), v.size() );
    return v;
}

static void download( const Image & dev, Image & host, const char * what )
{
    if ( dev.type() != DEVICE_TYPE )
        fail( "%s is not an image of the device any more", what );
    else if ( dev.width() != host.width() || dev.height() != host.height() || dev.colorCount() != host.colorCount() || dev.rowSize() != host.rowSize() )
        fail( "geometry of %s changed: %ux%ux%u row %u -> %ux%ux%u row %u", what, host.width(), host.height(), host.colorCount(), host.rowSize(), dev.width(), dev.height(), dev.colorCount(),
              dev.rowSize() );
    else if ( !dev.empty() ) {
        const std::vector<uint8_t> v = content( dev );
        memcpy( host.data(), v.data(), v.size() );
    }
}

static void onDevice( const std::function<void( Args & )> & fn, Args & a )
{
    Args d = a;
    std::vector<Image> dev;
    dev.reserve( a.im.size() );
    for ( size_t k = 0; k < a.im.size(); ++k ) {
        dev.push_back( upload( *a.im[k] ) );
        d.im[k] = &dev.back();
    }
    const auto back = [&]() {
        for ( size_t k = 0; k < dev.size(); ++k )
            download( dev[k], *a.im[k], "an operand" );
    };
    try {
        fn( d );
    }
    catch ( ... ) {
        back();
        throw;
    }
    back();
    deviceIdle();
    a.vec = d.vec;
    a.num = d.num;
    if ( !d.ret.empty() ) {
        Image host( d.ret.width(), d.ret.height(), d.ret.colorCount(), d.ret.alignment() );
        download( d.ret, host, "the created image" );
        a.ret = host;
    }
}

#ifdef DEVICE_ROTATE
// bilinear interpolation in single precision, 0 where the four pixels are not all inside of the input
static void rotated( const Ref & r, int, uint32_t x, uint32_t y, uint32_t, int & lo, int & hi )
{
    const double size = std::fabs( r.a.d0 ) + std::fabs( r.a.d1 ) + std::fabs( r.a.d2 ) + std::fabs( r.a.d3 );
    lo = 0;
    hi = 255;
    if ( !( size < 1e4 ) || !std::isfinite( r.a.d4 ) )
        return;
    const double c = std::cos( r.a.d4 ), s = std::sin( r.a.d4 ), dx = x - r.a.d2, dy = y - r.a.d3;
    const double px = c * dx + s * dy + r.a.d0, py = -s * dx + c * dy + r.a.d1, maxX = double( r.w ) - 1, maxY = double( r.h ) - 1;
    const double e = r.a.d4 == 0 ? 0 : 2e-6 * ( 1 + size + r.w + r.h );
    hi = 0;
    if ( px < -e || py < -e || px >= maxX + e || py >= maxY + e )
        return;
    const bool mayBeOutside = px < e || py < e || px >= maxX - e || py >= maxY - e;
    double low = 256, high = -1; // over the possible positions
    for ( int k = 0; k < 9; ++k ) {
        const double qx = std::min( std::max( px + ( k % 3 - 1 ) * e, 0.0 ), maxX - 1e-9 ), qy = std::min( std::max( py + ( k / 3 - 1 ) * e, 0.0 ), maxY - 1e-9 );
        if ( qx < 0 || qy < 0 )
            continue;
        const uint32_t ix = uint32_t( qx ), iy = uint32_t( qy );
        const double u = qx - ix, v = qy - iy;
        const double value = r.in( 0, ix, iy ) * ( 1 - u ) * ( 1 - v ) + r.in( 0, ix + 1, iy ) * u * ( 1 - v ) + r.in( 0, ix, iy + 1 ) * ( 1 - u ) * v + r.in( 0, ix + 1, iy + 1 ) * u * v;
        low = std::min( low, value );
        high = std::max( high, value );
    }
    if ( high < 0 )
        return;
    lo = int( std::floor( low + 0.5 - 1e-3 - 600 * e ) );
    hi = int( std::floor( high + 0.5 + 1e-3 + 600 * e ) );
    if ( mayBeOutside && e > 0 )
        lo = 0;
}
#endif

#define ON( F, N, ... )                                                                                                                                                 \
    {                                                                                                                                                                   \
        Op & op = find( N );                                                                                                                                            \
        F( DEVICE, DeviceFunctions, __VA_ARGS__ )                                                                                                                 \
    }
static Op & find( const char * n )
{
    for ( Op & op : OPS )
        if ( op.name == n )
            return op;
    fprintf( stderr, "no operation %s\n", n );
    abort();
}

static void addFunctions()
{
    OPS = makeOps();
    // calls through the common interface are kept
    for ( Op & op : OPS )
        op.impls.erase( std::remove_if( op.impls.begin(), op.impls.end(), []( const Impl & i ) { return i.bk != AUTO; } ), op.impls.end() );
    ON( BINARY, "AbsoluteDifference", AbsoluteDifference )
    ON( BINARY, "BitwiseAnd", BitwiseAnd )
    ON( BINARY, "BitwiseOr", BitwiseOr )
    ON( BINARY, "BitwiseXor", BitwiseXor )
    ON( BINARY, "Maximum", Maximum )
    ON( BINARY, "Minimum", Minimum )
    ON( BINARY, "Subtract", Subtract )
    ON( UNARY, "ConvertToGrayScale", ConvertToGrayScale )
    ON( UNARY, "ConvertToRgb", ConvertToRgb )
    ON( U_ROI_OUT, "Copy", Copy )
    ON( U_FULL_OUT, "Copy", Copy )
    ON( U_ROI_RET, "Copy", Copy )
    ON( UNARY, "ExtractChannel", ExtractChannel, a.u0 )
    ON( UNARY, "Flip", Flip, a.b0, a.b1 )
    ON( UNARY, "GammaCorrection", GammaCorrection, a.d0, a.d1 )
    ON( UNARY, "Invert", Invert )
    ON( UNARY, "LookupTable", LookupTable, a.table )
#ifdef DEVICE_NORMALIZE
    ON( UNARY, "Normalize", Normalize )
#endif
    ON( UNARY, "Threshold", Threshold, a.u0 )
    ON( UNARY, "ThresholdRange", Threshold, a.u0, a.u1 )
    ON( VECTOR, "Histogram", Histogram )
    ON( VECTOR, "ProjectionProfile", ProjectionProfile, a.b0 )
    {
        Op & op = find( "Fill" );
        FOR_CALL( DEVICE, ROI_OUT, DeviceFunctions::Fill( *a.im[0], a.x[0], a.y[0], a.w, a.h, a.u0 ) )
        FOR_CALL( DEVICE, FULL_OUT, DeviceFunctions::Fill( *a.im[0], a.u0 ) )
    }
    {
        Op & op = find( "IsEqual" );
        FOR_CALL( DEVICE, ROI_RET, a.num = DeviceFunctions::IsEqual( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h ) )
        FOR_CALL( DEVICE, FULL_RET, a.num = DeviceFunctions::IsEqual( *a.im[0], *a.im[1] ) )
    }
#ifdef DEVICE_ROTATE
    {
        Op & op = find( "Rotate" );
        FOR_CALL( DEVICE, FULL_OUT, DeviceFunctions::Rotate( *a.im[0], float( a.d0 ), float( a.d1 ), *a.im[1], float( a.d2 ), float( a.d3 ), float( a.d4 ) ) )
        op.pixel = rotated;
    }
#endif
    for ( const char * n : { "Fill", "Histogram" } ) // implemented for one channel only
        find( n ).colours = gray2;
    find( "GammaCorrection" ).colours = gray2;
    OPS.erase( std::remove_if( OPS.begin(), OPS.end(), []( const Op & o ) { return o.impls.empty(); } ), OPS.end() );
    for ( Op & op : OPS )
        for ( Impl & i : op.impls ) {
            const auto fn = i.call;
            i.call = [fn]( Args & a ) { onDevice( fn, a ); };
        }
}

static void results()
{
    const auto visit = []( const Op & o, const Impl & i, Args & a, const std::vector<Snap> & before ) {
        phase( "%.180s", describe( o, i, a ).c_str() );
        const Args copy = a;
        const bool padding = o.name != "Fill" || i.form == ROI_OUT; // filling of the whole image includes its padding
        checkAgainstReference( o, i, copy, before, call( i, a ), PIXELS | ( padding ? SURROUNDINGS : 0 ) );
    };
    const bool deep = ctx().thorough;
    for ( const Op & op : OPS )
        for ( const Impl & impl : op.impls ) {
            const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
            for ( const auto & cc : colourSets( op ) ) {
                const int n = operandCount( op );
                for ( int align = 0; align < ( 1 << n ); ++align )
                    for ( int ci = 0; ci < 2; ++ci ) {
                        if ( impl.bk == AUTO && !deep && ( ci == 0 || ( align != 0 && align + 1 != 1 << n ) ) )
                            continue;
                        if ( !deep && impl.form != ROI_OUT && align != 0 && align + 1 != 1 << n )
                            continue;
                        std::vector<std::pair<uint32_t, uint32_t>> sizes = { { 3, 2 }, { 2, 3 } };
                        if ( n == 3 )
                            sizes = { { 2, 2 } };
                        if ( impl.bk == AUTO && !deep )
                            sizes = { { 3, 1 }, { 1, 2 } };
                        if ( deep )
                            sizes.push_back( n == 3 ? std::make_pair( 3u, 2u ) : std::make_pair( 4u, 3u ) );
                        if ( full )
                            sizes.push_back( std::make_pair( 65u, 66u ) ); // several work groups in both directions
                        for ( auto & s : sizes ) {
                            if ( !next() )
                                continue;
                            label( "%s %s %ux%u channels %u alignments %d content %d", op.name.c_str(), name( impl.form ), s.first, s.second, cc[0], align, ci );
                            std::vector<Dim> d;
                            for ( int k = 0; k < n; ++k )
                                d.push_back( Dim{ s.first, s.second, cc[k], uint8_t( align >> k & 1 ? ( k % 2 ? 8 : 5 ) : 1 ) } );
                            if ( full )
                                wholeImage( op, impl, d, contentFor( op, ci ), visit );
                            else {
                                if ( n == 2 && op.outs )
                                    d[1].w += 1;
                                allRegions( op, impl, d, contentFor( op, ci ), visit, false );
                            }
                        }
                    }
            }
        }
}

// every invalid argument is rejected as by the other backends
static void judge( const Op & op, const Impl & impl, Args & a )
{
    phase( "%.180s", describe( op, impl, a ).c_str() );
    const bool ok = valid( op, impl, a );
    const std::vector<Snap> before = snaps( a );
    const Result r = call( impl, a );
    ++ctx().compared;
    if ( op.name == "Fill" && impl.form == FULL_OUT )
        return; // a method of the image
    if ( ok == r.threw )
        fail( ok ? "valid call was refused" : "invalid call was accepted" );
    if ( r.threw )
        for ( size_t k = 0; k < before.size(); ++k )
            if ( before[k].d != r.ops[k].d || before[k].w != r.ops[k].w || before[k].h != r.ops[k].h || before[k].cc != r.ops[k].cc )
                fail( "refused call modified operand %zu", k );
}

// ------------------------------------------------------------------------------------------------ single pixels
static void pixels()
{
    for ( int which = 0; which < 2; ++which )
        for ( uint32_t W = 1; W <= 4; ++W )
            for ( uint32_t H = 1; H <= 3; ++H )
                for ( int al : { 1, 5 } ) {
                    if ( !next() )
                        continue;
                    label( "SetPixel %d of %ux%u alignment %d", which, W, H, al );
                    std::vector<uint32_t> px, py;
                    for ( uint32_t x : { 0u, 1u, 2u, 3u, W, 0x80000000u, 0xFFFFFFFFu } )
                        if ( x <= W || x > 3 )
                            px.push_back( x );
                    for ( uint32_t y : { 0u, 1u, 2u, H, 0x80000000u, 0xFFFFFFFFu } )
                        if ( y <= H || y > 2 )
                            py.push_back( y );
                    const size_t n = px.size() * py.size();
                    const int len = which == 0 ? 1 : 2;
                    for ( size_t code = 0; code < ( len == 1 ? n : n * n ); ++code )
                        for ( int missing = 0; missing < ( which ? 2 : 1 ); ++missing )
                            for ( int cc : { 1, 3 } ) {
                                if ( ( cc == 3 || missing ) && code % 5 )
                                    continue;
                                Vec X, Y;
                                bool ok = cc == 1 && !missing;
                                for ( size_t k = 0, c = code; k < size_t( len ); ++k, c /= n ) {
                                    X.push_back( px[c % n % px.size()] );
                                    Y.push_back( py[c % n / px.size()] );
                                    ok = ok && X.back() < W && Y.back() < H;
                                }
                                if ( which && code % 3 == 0 && !missing ) { // other number of points
                                    X.push_back( 0 );
                                    Y.push_back( 0 );
                                }
                                if ( missing )
                                    Y.pop_back();
                                phase( "%zu points, first %u,%u channels %d", X.size(), X[0], Y.empty() ? 0 : Y[0], cc );
                                Img host = make( Dim{ W, H, uint8_t( cc ), uint8_t( al ) } );
                                fillImage( *host, 0, HASH );
                                Image dev = upload( *host );
                                bool threw = false;
                                ++ctx().calls;
                                try {
                                    if ( which )
                                        DeviceFunctions::SetPixel( dev, X, Y, 9 );
                                    else
                                        DeviceFunctions::SetPixel( dev, X[0], Y[0], 9 );
                                }
                                catch ( const penguinVException & ) {
                                    threw = true;
                                    ++ctx().refused;
                                }
                                if ( cc == 1 || !ok )
                                    expect( threw == !ok, ok ? "valid call was refused" : "invalid call was accepted" );
                                Snap e = snap( *host );
                                if ( ok )
                                    for ( size_t k = 0; k < X.size(); ++k )
                                        e.d[Y[k] * e.row + X[k]] = 9;
                                ++ctx().compared;
                                expect( content( dev ) == e.d, ok ? "wrong pixels after the call" : "refused call modified the image" );
                            }
                }
}

// ------------------------------------------------------------------------------------------------ transfers
static void samePixels( const Snap & a, const Snap & b, const char * what )
{
    if ( a.w != b.w || a.h != b.h || a.cc != b.cc )
        fail( "%s has size %ux%ux%u instead of %ux%ux%u", what, b.w, b.h, b.cc, a.w, a.h, a.cc );
    else
        for ( uint32_t y = 0; y < a.h; ++y )
            for ( uint32_t x = 0; x < a.w * a.cc; ++x )
                if ( a.d[y * a.row + x] != b.d[y * b.row + x] )
                    fail( "%s: byte %u of row %u is %u instead of %u", what, x, y, b.d[y * b.row + x], a.d[y * a.row + x] );
    ++ctx().compared;
}
static Snap snapDevice( const Image & dev )
{
    Snap s;
    s.w = dev.width();
    s.h = dev.height();
    s.row = dev.rowSize();
    s.cc = dev.colorCount();
    s.d = content( dev );
    return s;
}

static void transfers()
{
    const uint32_t top = ctx().thorough ? 7 : 5;
    for ( uint32_t w = 1; w <= top + 1; ++w )
        for ( uint8_t cc : { 1, 3, 4 } ) {
            if ( !next() )
                continue;
            label( "transfers of width %u channels %u", w, cc );
            for ( uint32_t h = 1; h <= top; ++h )
                for ( int alIn : { 1, 3, 4, 8, 255 } )
                    for ( int alOut : { 1, 3, 4, 8, 255 } ) {
                        const uint32_t W = w > top ? 100 : w;
                        phase( "%ux%u alignments %d %d", W, h, alIn, alOut );
                        Img in = make( Dim{ W, h, cc, uint8_t( alIn ) } );
                        fillImage( *in, 1, HASH );
                        Img other = make( Dim{ W, h, cc, uint8_t( alOut ) } );
                        fillImage( *other, 2, HASH );
                        const Snap source = snap( *in );
                        Image dev = upload( *other );
                        ++ctx().calls;
                        toDevice( *in, dev );
                        expect( dev.type() == DEVICE_TYPE && dev.rowSize() == other->rowSize() && dev.alignment() == alOut, "layout of the device image changed" );
                        samePixels( source, snapDevice( dev ), "transfer to the device" );
                        expect( snap( *in ).d == source.d, "source of the transfer was modified" );

                        dev = upload( *in );
                        const Snap row = snap( *other );
                        ++ctx().calls;
                        fromDevice( dev, *other );
                        const Snap got = snap( *other );
                        expect( got.row == row.row && other->type() == 0, "layout of the host image changed" );
                        samePixels( source, got, "transfer from the device" );
                        expect( content( dev ) == source.d, "source of the transfer was modified" );

                        if ( alOut == 1 ) {
                            ++ctx().calls;
                            const Image d2 = toDevice( *in );
                            expect( d2.type() == DEVICE_TYPE, "created image is not in the device" );
                            samePixels( source, snapDevice( d2 ), "creating transfer to the device" );
                            const Image h2 = fromDevice( dev );
                            expect( h2.type() == 0, "created image is not in the host" );
                            samePixels( source, snap( h2 ), "creating transfer from the device" );
                        }
                        // through the conversion functions of the image type manager
                        Image d3 = DeviceImage().generate( W, h, cc, uint8_t( alOut ) );
                        ImageTypeManager::instance().convert( *in, d3 );
                        expect( d3.type() == DEVICE_TYPE, "converted image is not in the device" );
                        samePixels( source, snapDevice( d3 ), "conversion to the type of the device" );
                        Image h3( W, h, cc, uint8_t( alOut ) );
                        ImageTypeManager::instance().convert( dev, h3 );
                        expect( h3.type() == 0, "converted image is not in the host" );
                        samePixels( source, snap( h3 ), "conversion to the type of the host" );
                        const Image d4( dev );
                        Image d5 = DeviceImage().generate( 1, 1 );
                        d5 = dev;
                        expect( d4.data() != dev.data() && d5.data() != dev.data(), "copies of the image share the memory" );
                        samePixels( source, snapDevice( d4 ), "copy of the device image" );
                        samePixels( source, snapDevice( d5 ), "assignment of the device image" );
                    }
        }
    if ( next() ) {
        label( "transfers between different images" );
        const Dim dims[] = { { 3, 2, 1, 1 }, { 2, 3, 1, 1 }, { 4, 2, 1, 1 }, { 3, 1, 1, 1 }, { 3, 2, 3, 1 }, { 1, 2, 3, 1 }, { 3, 2, 4, 1 }, { 0, 0, 1, 1 }, { 6, 1, 1, 1 }, { 3, 2, 1, 4 } };
        for ( const Dim & p : dims )
            for ( const Dim & q : dims ) {
                Img a = make( p ), b = make( q );
                if ( !a->empty() )
                    fillImage( *a, 1, HASH );
                if ( !b->empty() )
                    fillImage( *b, 2, HASH );
                const bool ok = p.w == q.w && p.h == q.h && p.cc == q.cc && p.w;
                for ( int direction = 0; direction < 2; ++direction ) {
                    phase( "%ux%ux%u -> %ux%ux%u direction %d", p.w, p.h, p.cc, q.w, q.h, q.cc, direction );
                    Image dev = upload( direction ? *a : *b );
                    Image host = direction ? *b : *a;
                    bool threw = false;
                    ++ctx().calls;
                    try {
                        if ( direction )
                            fromDevice( dev, host );
                        else
                            toDevice( host, dev );
                    }
                    catch ( const penguinVException & ) {
                        threw = true;
                        ++ctx().refused;
                    }
                    expect( threw == !ok, ok ? "valid transfer was refused" : "invalid transfer was accepted" );
                    if ( threw )
                        expect( direction ? snap( host ).d == snap( *b ).d : content( dev ) == snap( *b ).d, "refused transfer modified its output" );
                }
            }
    }
}

static void allCases( bool decisions = true )
{
    addFunctions();
    if ( !ctx().args.empty() )
        OPS.erase( std::remove_if( OPS.begin(), OPS.end(), []( const Op & o ) { return o.name != ctx().args[0]; } ), OPS.end() );
    results();
    for ( const Op & op : OPS )
        for ( const Impl & impl : op.impls )
            if ( decisions && ( impl.bk == DEVICE || ctx().thorough ) )
                decisionCases( op, impl, 4, 3, "", judge );
    if ( ctx().args.empty() || ctx().args[0] == "SetPixel" )
        pixels();
    if ( ctx().args.empty() || ctx().args[0] == "transfers" )
        try {
            transfers();
        }
        catch ( const std::exception & e ) {
            fail( "exception: %s", e.what() );
        }
}
