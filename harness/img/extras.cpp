// Further enumerations: 16 bit conversions, identities, thresholds, binary morphology.
#include "common.h"
#include <array>

// one conversion in both directions, region given; what: PIXELS and / or SURROUNDINGS
static void convertBits( const Bits & b, uint32_t W, uint32_t H, uint8_t cc, uint8_t al1, uint8_t al2, uint32_t x1, uint32_t y1, uint32_t x2, uint32_t y2, uint32_t w, uint32_t h, int what )
{
    phase( "%s 8<->16 bit %ux%ux%u aligned %u/%u at %u,%u -> %u,%u region %ux%u", b.n, W, H, cc, al1, al2, x1, y1, x2, y2, w, h );
    Image i8( W, H, cc, al1 );
    fillImage( i8, 1, HASH );
    Image16Bit i16 = make16( W, H, cc, al2 );
    const Image keep8( i8 );
    const Image16Bit keep16( i16 );
    ctx().calls += 2;
    b.to16( i8, x1, y1, i16, x2, y2, w, h );
    if ( what & PIXELS )
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t k = 0; k < w * cc; ++k ) {
                const int v = i16.data()[( y2 + y ) * i16.rowSize() + x2 * cc + k], e = keep8.data()[( y1 + y ) * keep8.rowSize() + x1 * cc + k] << 8;
                if ( v != e )
                    fail( "ConvertTo16Bit: value %u of row %u is %d, expected %d", k, y, v, e );
            }
    if ( what & SURROUNDINGS ) {
        expect( sameOutside( i16, keep16, x2, y2, w, h ), "ConvertTo16Bit modified pixels outside of the region" );
        expect( sameOutside( i8, keep8, 0, 0, 0, 0 ), "ConvertTo16Bit modified its input" );
    }
    const Image16Bit src( keep16 );
    Image dst( keep8 );
    b.to8( src, x1, y1, dst, x2, y2, w, h );
    ++ctx().compared;
    if ( what & PIXELS )
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t k = 0; k < w * cc; ++k ) {
                const int v = dst.data()[( y2 + y ) * dst.rowSize() + x2 * cc + k], e = keep16.data()[( y1 + y ) * keep16.rowSize() + x1 * cc + k] >> 8;
                if ( v != e )
                    fail( "ConvertTo8Bit: value %u of row %u is %d, expected %d", k, y, v, e );
            }
    if ( what & SURROUNDINGS ) {
        expect( sameOutside( dst, keep8, x2, y2, w, h ), "ConvertTo8Bit modified pixels outside of the region" );
        expect( sameOutside( src, keep16, 0, 0, 0, 0 ), "ConvertTo8Bit modified its input" );
    }
}

void bitRegions( const Bits & b, int what )
{
    for ( uint8_t cc : { 1, 3, 4 } )
        for ( int al = 0; al < 4; ++al ) {
            if ( !next() )
                continue;
            label( "%s::ConvertTo16Bit/8Bit all regions, channels %u alignment %d", b.n, cc, al );
            const uint32_t W = 4, H = 3;
            for ( uint32_t w = 1; w <= W; ++w )
                for ( uint32_t h = 1; h <= H; ++h )
                    for ( uint32_t x1 = 0; x1 + w <= W; ++x1 )
                        for ( uint32_t y1 = 0; y1 + h <= H; ++y1 )
                            for ( uint32_t x2 = 0; x2 + w <= W; ++x2 )
                                for ( uint32_t y2 = 0; y2 + h <= H; ++y2 )
                                    convertBits( b, W, H, cc, al & 1 ? 8 : 1, al & 2 ? 5 : 1, x1, y1, x2, y2, w, h, what );
        }
}

// forms, identity and rejection of the bit depth conversions
void bitForms( bool agree, bool reject )
{
    for ( const Bits & b : BITS )
        for ( uint8_t cc : { 1, 2, 3, 4 } ) {
            if ( !next() )
                continue;
            label( "%s::ConvertTo16Bit/8Bit forms, channels %u", b.n, cc );
            for ( uint32_t w = 1; w <= 70; w = w < 6 ? w + 1 : w + 8 )
                for ( uint32_t h = 1; h <= 3; ++h )
                    for ( int al : { 1, 8 } ) {
                        Image i8( w, h, cc, uint8_t( al ) );
                        fillImage( i8, 1, HASH );
                        Image16Bit i16 = make16( w, h, cc, uint8_t( al ) );
                        phase( "%ux%u", w, h );
                        if ( cc != 2 && agree ) {
                            const Image16Bit r = b.to16ret( i8 );
                            Image16Bit o( w, h, cc ), p( w, h, cc );
                            BITS[0].to16( i8, 0, 0, p, 0, 0, w, h );
                            b.to16out( i8, o );
                            expect( r.width() == w && r.height() == h && r.colorCount() == cc, "wrong size of created image" );
                            expect( sameOutside( o, p, 0, 0, 0, 0 ) && sameOutside( r, p, 0, 0, 0, 0 ), "forms of ConvertTo16Bit differ" );
                            const Image s = b.to8ret( i16 );
                            Image q( w, h, cc ), t( w, h, cc );
                            BITS[0].to8( i16, 0, 0, t, 0, 0, w, h );
                            b.to8out( i16, q );
                            expect( s.width() == w && s.height() == h && s.colorCount() == cc, "wrong size of created image" );
                            expect( sameOutside( q, t, 0, 0, 0, 0 ) && sameOutside( s, t, 0, 0, 0, 0 ), "forms of ConvertTo8Bit differ" );
                            const Image16Bit r2 = b.to16roi( i8, w - 1, h - 1, 1, 1 );
                            const Image s2 = b.to8roi( i16, w - 1, h - 1, 1, 1 );
                            for ( int k = 0; k < cc; ++k ) {
                                expect( r2.data()[k] == i8.data()[( h - 1 ) * i8.rowSize() + ( w - 1 ) * cc + k] << 8, "region form of ConvertTo16Bit differs" );
                                expect( s2.data()[k] == i16.data()[( h - 1 ) * i16.rowSize() + ( w - 1 ) * cc + k] >> 8, "region form of ConvertTo8Bit differs" );
                            }
                            const Image back = b.to8ret( b.to16ret( i8 ) );
                            expect( sameOutside( back, Image_Function::Copy( i8, 0, 0, w, h ), 0, 0, 0, 0 ), "8 to 16 to 8 bit is not the identity" );
                            ctx().calls += 8;
                        }
                        if ( reject ) {
                            const auto refuse = [&]( bool bad, std::function<void()> f, const char * n ) {
                                phase( "%s %ux%ux%u", n, w, h, cc );
                                const Snap before = snap( i8 );
                                const std::vector<uint16_t> before16( i16.data(), i16.data() + i16.rowSize() * i16.height() );
                                bool threw = false;
                                ++ctx().calls;
                                try {
                                    f();
                                }
                                catch ( const penguinVException & ) {
                                    threw = true;
                                }
                                expect( threw == bad, bad ? "invalid call was accepted" : "valid call was refused" );
                                if ( bad )
                                    expect( snap( i8 ).d == before.d && before16 == std::vector<uint16_t>( i16.data(), i16.data() + i16.rowSize() * i16.height() ), "refused call modified an image" );
                            };
                            const bool two = cc == 2;
                            Image16Bit other( w, h, cc == 1 ? 3 : 1 ), none, bigger( w + 1, h, cc ), taller( w, h + 1, cc );
                            Image other8( w, h, cc == 1 ? 3 : 1 ), none8, bigger8( w + 1, h, cc ), taller8( w, h + 1, cc );
                            refuse( two, [&] { b.to16( i8, 0, 0, i16, 0, 0, w, h ); }, "to16" );
                            refuse( two, [&] { b.to8( i16, 0, 0, i8, 0, 0, w, h ); }, "to8" );
                            fillImage( i8, 1, HASH );
                            refuse( true, [&] { b.to16( i8, 0, 0, other, 0, 0, w, h ); }, "to16 channels" );
                            refuse( true, [&] { b.to8( other, 0, 0, i8, 0, 0, w, h ); }, "to8 channels" );
                            refuse( true, [&] { b.to16( i8, 0, 0, none, 0, 0, w, h ); }, "to16 empty" );
                            refuse( true, [&] { b.to16( none8, 0, 0, i16, 0, 0, w, h ); }, "to16 empty input" );
                            refuse( true, [&] { b.to8( none, 0, 0, i8, 0, 0, w, h ); }, "to8 empty input" );
                            refuse( true, [&] { b.to8( i16, 0, 0, none8, 0, 0, w, h ); }, "to8 empty" );
                            refuse( true, [&] { b.to16ret( none8 ); }, "to16 of empty" );
                            refuse( true, [&] { b.to8ret( none ); }, "to8 of empty" );
                            refuse( true, [&] { b.to16out( i8, bigger ); }, "to16 bigger output" );
                            refuse( true, [&] { b.to16out( i8, taller ); }, "to16 taller output" );
                            refuse( true, [&] { b.to8out( i16, bigger8 ); }, "to8 bigger output" );
                            refuse( true, [&] { b.to8out( i16, taller8 ); }, "to8 taller output" );
                            refuse( true, [&] { b.to16out( bigger8, i16 ); }, "to16 bigger input" );
                            refuse( true, [&] { b.to8out( bigger, i8 ); }, "to8 bigger input" );
                            for ( uint32_t x : { 0u, 1u, 0xFFFFFFFFu } )
                                for ( uint32_t s : { 0u, w, 0xFFFFFFFFu } ) {
                                    if ( x == 0 && s == w )
                                        continue;
                                    refuse( true, [&] { b.to16( i8, x, 0, i16, 0, 0, s, h ); }, "to16 region" );
                                    refuse( true, [&] { b.to16( i8, 0, 0, i16, x, 0, s, h ); }, "to16 output region" );
                                    refuse( true, [&] { b.to8( i16, x, 0, i8, 0, 0, s, h ); }, "to8 region" );
                                    refuse( true, [&] { b.to8( i16, 0, 0, i8, x, 0, s, h ); }, "to8 output region" );
                                    refuse( true, [&] { b.to16roi( i8, x, 0, s, h ); }, "to16 region of new" );
                                    refuse( true, [&] { b.to8roi( i16, x, 0, s, h ); }, "to8 region of new" );
                                }
                        }
                    }
        }
}

// ------------------------------------------------------------------------------------------------ extras
// C11: big images in one dimension, inverse pairs and zero movements
void geometryExtras()
{
    struct Big
    {
        uint32_t w, h, ow, oh;
    };
    for ( const Big & b : { Big{ 65537, 1, 65536, 1 }, Big{ 70001, 1, 65999, 1 }, Big{ 65536, 1, 65537, 2 }, Big{ 1, 65537, 1, 70001 }, Big{ 100003, 1, 99991, 1 }, Big{ 1, 100003, 2, 66666 } } )
        for ( int bk = 0; bk < 3; ++bk ) {
            if ( !next() )
                continue;
            label( "Resize %ux%u to %ux%u backend %d", b.w, b.h, b.ow, b.oh, bk );
            Image in( b.w, b.h ), out( b.ow, b.oh );
            fillImage( in, 1, HASH );
            ++ctx().calls;
            if ( bk == 0 )
                Image_Function::Resize( in, out );
            else if ( bk == 1 )
                Function_Pool::Resize( in, out );
            else
                penguinV::Resize( in, out );
            for ( uint32_t y = 0; y < b.oh; ++y )
                for ( uint32_t x = 0; x < b.ow; ++x ) {
                    const int e = in.data()[size_t( uint64_t( y ) * b.h / b.oh ) * in.rowSize() + size_t( uint64_t( x ) * b.w / b.ow )], v = out.data()[size_t( y ) * out.rowSize() + x];
                    if ( e != v )
                        fail( "pixel %u,%u is %d, expected %d", x, y, v, e );
                }
            ++ctx().compared;
        }
    for ( uint32_t w = 1; w <= 9; ++w )
        for ( uint32_t h = 1; h <= 9; ++h ) {
            if ( !next() )
                continue;
            label( "inverse pairs and zero movements %ux%u", w, h );
            Image in( w, h );
            fillImage( in, 2, HASH );
            ctx().calls += 10;
            for ( int m = 0; m < 4; ++m ) {
                expect( Image_Function::IsEqual( in, penguinV::Flip( penguinV::Flip( in, m & 1, m & 2 ), m & 1, m & 2 ) ), "flipping twice changes the image" );
                expect( Image_Function::IsEqual( in, Image_Function::Flip( Image_Function::Flip( in, m & 1, m & 2 ), m & 1, m & 2 ) ), "flipping twice changes the image" );
            }
            expect( Image_Function::IsEqual( in, Image_Function::Transpose( Image_Function::Transpose( in ) ) ), "transposing twice changes the image" );
            expect( Image_Function::IsEqual( in, Image_Function::Shift( in, 0, 0 ) ), "shifting by zero is not a copy" );
            expect( Image_Function::IsEqual( in, Image_Function::Resize( in, w, h ) ), "resizing to the same size is not a copy" );
            // turning back and forth by a quarter, half and full turn, in the part that stays inside
            if ( w == h && w > 2 ) {
                const double c = ( w - 1 ) / 2.0, pi = 3.14159265358979323846;
                const Image r = Image_Function::Rotate( in, c, c, pi / 2 );
                for ( uint32_t y = 1; y + 1 < h; ++y )
                    for ( uint32_t x = 1; x + 1 < w; ++x ) {
                        const int v = r.data()[y * r.rowSize() + x], e = in.data()[( w - 1 - x ) * in.rowSize() + y];
                        const int e2 = in.data()[x * in.rowSize() + ( h - 1 - y )];
                        if ( abs( v - e ) > 1 && abs( v - e2 ) > 1 )
                            fail( "quarter turn: pixel %u,%u is %d, expected %d", x, y, v, e );
                    }
            }
        }
}

// C12: merge and split, swapping twice
void channelExtras()
{
    for ( uint32_t w = 1; w <= 70; w = w < 8 ? w + 1 : w + 5 )
        for ( uint32_t h = 1; h <= 3; ++h ) {
            if ( !next() )
                continue;
            label( "merge and split, swap twice %ux%u", w, h );
            Image rgb( w, h, 3 ), r( w, h ), g( w, h ), b( w, h );
            fillImage( rgb, 2, HASH );
            ctx().calls += 6;
            penguinV::Split( rgb, r, g, b );
            expect( Image_Function::IsEqual( rgb, penguinV::Merge( r, g, b ) ), "merge of split channels is not the image" );
            Image_Function::Split( rgb, r, g, b );
            expect( Image_Function::IsEqual( rgb, Image_Function::Merge( r, g, b ) ), "merge of split channels is not the image" );
            for ( SimdMode m : availableModes() ) {
                setMode( m );
                expect( Image_Function::IsEqual( rgb, penguinV::RgbToBgr( penguinV::RgbToBgr( rgb ) ) ), "swapping channels twice is not the identity" );
            }
            setMode( ALL );
            expect( Image_Function::IsEqual( rgb, Image_Function::RgbaToRgb( Image_Function::RgbToRgba( rgb ) ) ), "adding and removing the alpha channel is not the identity" );
            expect( Image_Function::IsEqual( r, Image_Function::ConvertToGrayScale( Image_Function::ConvertToRgb( r ) ) ), "grey to colour to grey is not the identity" );
        }
}

// C13: automatic threshold: all histograms over few levels and counts
void thresholdExtras()
{
    const auto check = [&]( const std::vector<std::pair<uint32_t, uint32_t>> & levels ) {
        Vec hist( 256, 0 );
        std::string text;
        for ( auto & l : levels ) {
            hist[l.first] = l.second;
            text += std::to_string( l.first ) + ":" + std::to_string( l.second ) + " ";
        }
        phase( "histogram %.150s", text.c_str() );
        ctx().calls += 2;
        const uint8_t t = Image_Function::GetThreshold( hist ), t2 = penguinV::GetThreshold( hist );
        if ( t != t2 )
            fail( "threshold is %u, dispatched %u", t, t2 );
        // between-class variance of the classes <= t and > t
        long double total = 0, sum = 0;
        for ( int i = 0; i < 256; ++i )
            total += hist[size_t( i )], sum += (long double)( hist[size_t( i )] ) * i;
        long double best = 0, got = 0, n = 0, s = 0;
        for ( int k = 0; k <= 256; ++k ) { // first class: all values below k
            const long double m = total - n;
            const long double v = n > 0 && m > 0 ? n / total * ( m / total ) * ( s / n - ( sum - s ) / m ) * ( s / n - ( sum - s ) / m ) : 0;
            best = v > best ? v : best;
            if ( k == t + 1 ) // the threshold itself belongs to the lower class
                got = v;
            if ( k < 256 )
                n += hist[size_t( k )], s += (long double)( hist[size_t( k )] ) * k;
        }
        ++ctx().compared;
        if ( got < best * ( 1 - 1e-9L ) - 1e-12L )
            fail( "threshold %u has between-class variance %Lg, the maximum is %Lg", t, got, best );
    };
    const uint32_t level[] = { 0, 1, 2, 100, 127, 128, 254, 255 };
    const uint32_t count[] = { 1, 2, 7, 1000, 20000000, 1000000000 };
    for ( int a = 0; a < 8; ++a )
        for ( int b = a + 1; b < 8; ++b ) {
            if ( !next() )
                continue;
            label( "GetThreshold levels %u %u..", level[a], level[b] );
            for ( uint32_t p : count )
                for ( uint32_t q : count ) {
                    check( { { level[a], p }, { level[b], q } } );
                    for ( int c = b + 1; c < 8; ++c )
                        for ( uint32_t r : count ) {
                            if ( uint64_t( p ) + q + r >= 0xFFFFFFFFull )
                                continue;
                            check( { { level[a], p }, { level[b], q }, { level[c], r } } );
                        }
                }
        }
}

// C13: binary images: all triples of values and all counts at which a counter could wrap around
void binaryExtras()
{
    for ( int a = 0; a < 256; ++a ) {
        if ( !next() )
            continue;
        label( "IsBinary of values %d ..", a );
        Image image( 3, 1 );
        for ( int b = a; b < 256; ++b )
            for ( int c = b; c < 256; ++c ) {
                phase( "with %d %d", b, c );
                image.data()[0] = uint8_t( b );
                image.data()[1] = uint8_t( c );
                image.data()[2] = uint8_t( a );
                ++ctx().calls;
                expect( Image_Function::IsBinary( image ) == ( a == b || b == c ), "wrong number of values found" );
            }
    }
    const uint32_t W = 300, H = 450;
    for ( uint32_t rare : { 1u, 2u, 127u, 128u, 255u, 256u, 257u, 511u, 512u, 1024u, 32768u, 65535u, 65536u, 65537u } )
        for ( int place = 0; place < 3; ++place ) {
            if ( !next() )
                continue;
            label( "IsBinary and Histogram with a value in %u pixels, place %d", rare, place );
            for ( uint32_t second : { 1u, 256u, 65536u } ) {
                phase( "second in %u", second );
                Image image( W, H );
                image.fill( uint8_t( place == 0 ? 255 : 0 ) );
                for ( uint32_t i = 0; i < rare; ++i )
                    image.data()[i] = uint8_t( place == 1 ? 255 : 100 );
                ctx().calls += 2;
                expect( Image_Function::IsBinary( image ), "an image of two values is not binary" );
                for ( uint32_t i = 0; i < second; ++i )
                    image.data()[W * H - 1 - i] = uint8_t( place == 2 ? 255 : 99 );
                expect( !Image_Function::IsBinary( image ), "an image of three values is binary" );
            }
        }
}

// C17: windows whose sizes do not fit into 8 or 16 bits
void wideWindows()
{
    const auto value = []( int kind, uint32_t x, uint32_t y ) {
        uint32_t v = ( x * 2654435761u ) ^ ( y * 40503u * 65537u );
        v ^= v >> 13;
        v *= 2246822519u;
        return kind == 0 ? uint8_t( v >> 17 ) : kind == 1 ? uint8_t( x * 3 + y ) : uint8_t( ( v >> 17 ) % 3 ? 255 : 1 );
    };
    const std::array<uint32_t, 3> medians[] = { { 41, 40, 13 }, { 41, 40, 15 }, { 41, 40, 17 }, { 41, 40, 21 }, { 41, 40, 23 }, { 41, 40, 25 }, { 41, 40, 31 }, { 41, 40, 39 }, { 260, 259, 257 } };
    for ( const auto & m : medians )
        for ( int kind = 0; kind < 3; ++kind ) {
            if ( !next() )
                continue;
            const uint32_t w = m[0], h = m[1], k = m[2], e = k / 2;
            label( "Median with kernel %u of %ux%u content %d", k, w, h, kind );
            Image in( w + 3, h + 2, 1, 4 ), out( w + 1, h + 1 );
            for ( uint32_t y = 0; y < in.height(); ++y )
                for ( uint32_t x = 0; x < in.rowSize(); ++x )
                    in.data()[y * in.rowSize() + x] = value( kind, x, y );
            ++ctx().calls;
            Image_Function::Median( in, 2, 1, out, 1, 0, w, h, k );
            ++ctx().compared;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    uint8_t expected = value( kind, x + 2, y + 1 );
                    if ( x >= e && y >= e && x + e < w && y + e < h ) {
                        std::vector<uint32_t> count( 256, 0 );
                        for ( uint32_t j = y - e; j <= y + e; ++j )
                            for ( uint32_t i = x - e; i <= x + e; ++i )
                                ++count[value( kind, i + 2, j + 1 )];
                        uint32_t below = 0;
                        for ( expected = 0; below + count[expected] <= k * k / 2; ++expected )
                            below += count[expected];
                    }
                    const uint8_t v = out.data()[y * out.rowSize() + x + 1];
                    if ( v != expected ) {
                        fail( "pixel %u,%u is %u, expected %u", x, y, v, expected );
                        return;
                    }
                }
        }
    const uint32_t halves[] = { 63, 64, 127, 128, 129, 150, 255, 256, 257, 300 };
    const std::pair<uint32_t, uint32_t> shapes[] = { { 620, 3 }, { 3, 620 }, { 521, 130 } };
    for ( const auto & sh : shapes )
        for ( uint32_t half : halves )
            for ( int erode = 0; erode < 2; ++erode ) {
                if ( !next() )
                    continue;
                const uint32_t w = sh.first, h = sh.second;
                const bool both = w > 100 && h > 100;
                const uint32_t kx = h > 100 && !both ? 1 : half, ky = both ? 7 : w > 100 ? 1 : half;
                label( "%s of %ux%u with %u,%u", erode ? "BinaryErode" : "BinaryDilate", w, h, kx, ky );
                Image im( w, h );
                im.fill( erode ? 255 : 0 );
                std::vector<std::pair<uint32_t, uint32_t>> points;
                for ( uint32_t i = 0; i < 5; ++i )
                    points.push_back( { i * 97 * ( w / 100 ) % w, i * 89 * ( h / 100 ) % h } );
                points.push_back( { w - 1, h - 1 } );
                points.resize( half % 2 ? 6 : 1 );
                for ( auto & p : points )
                    im.data()[p.second * im.rowSize() + p.first] = erode ? 0 : 255;
                ++ctx().calls;
                if ( erode )
                    Image_Function::BinaryErode( im, kx, ky );
                else
                    Image_Function::BinaryDilate( im, kx, ky );
                ++ctx().compared;
                const uint32_t cx = std::min( kx, w / 2 ), cy = std::min( ky, h / 2 );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x ) {
                        bool hit = false;
                        for ( auto & p : points )
                            hit = hit || ( std::max( x, p.first ) - std::min( x, p.first ) <= cx && std::max( y, p.second ) - std::min( y, p.second ) <= cy );
                        if ( im.data()[y * im.rowSize() + x] != ( hit != ( erode == 1 ) ? 255 : 0 ) ) {
                            fail( "pixel %u,%u is wrong", x, y );
                            return;
                        }
                    }
            }
    for ( uint32_t k : { 15u, 60u, 127u, 128u, 140u } )
        for ( float sigma : { 0.5f, 30.0f, 5000.0f } ) {
            if ( !next() )
                continue;
            const uint32_t w = 2 * k + 6, h = 2 * k + 3;
            label( "Gaussian kernel %u of %ux%u sigma %g", k, w, h, sigma );
            std::vector<float> f;
            ++ctx().calls;
            Image_Function::GetGaussianKernel( f, w, h, k, sigma );
            if ( f.size() != size_t( w ) * h )
                fail( "size of kernel is %zu", f.size() );
            double line = 0;
            for ( int x = -int( k ); x <= int( k ); ++x )
                line += std::exp( -double( x ) * x / ( 2.0 * sigma ) );
            ++ctx().compared;
            for ( uint32_t j = 0; j < h; ++j )
                for ( uint32_t i = 0; i < w; ++i ) {
                    const int x = int( i ) - int( w / 2 ), y = int( j ) - int( h / 2 );
                    const double e = std::abs( x ) <= int( k ) && std::abs( y ) <= int( k ) ? std::exp( -( double( x ) * x + double( y ) * y ) / ( 2.0 * sigma ) ) / ( line * line ) : 0;
                    if ( !( std::fabs( f[j * w + i] - e ) <= 2e-5 && std::fabs( f[j * w + i] - e ) <= 1e-2 * e + 1e-9 ) ) {
                        fail( "weight at %u,%u is %g, expected %g", i, j, f[j * w + i], e );
                        return;
                    }
                }
        }
}

// C17: all small binary images, and the Gaussian kernel
void morphologyExtras()
{
    std::vector<std::pair<uint32_t, uint32_t>> shapes = { { 4, 4 }, { 5, 3 }, { 3, 5 }, { 12, 1 }, { 1, 12 }, { 6, 2 }, { 2, 6 } };
    for ( auto & sh : shapes )
        for ( uint32_t kx = 0; kx <= 3; ++kx )
            for ( uint32_t ky = 0; ky <= 3; ++ky ) {
                if ( !next() )
                    continue;
                label( "BinaryDilate and BinaryErode of all binary images %ux%u with %u,%u", sh.first, sh.second, kx, ky );
                const uint32_t W = sh.first, H = sh.second, n = W * H;
                const int cx = int( std::min( kx, W / 2 ) ), cy = int( std::min( ky, H / 2 ) );
                std::vector<uint32_t> window( n, 0 );
                for ( int y = 0; y < int( H ); ++y )
                    for ( int x = 0; x < int( W ); ++x )
                        for ( int j = y - cy; j <= y + cy; ++j )
                            for ( int i = x - cx; i <= x + cx; ++i )
                                if ( i >= 0 && j >= 0 && i < int( W ) && j < int( H ) )
                                    window[size_t( y ) * W + size_t( x )] |= 1u << ( uint32_t( j ) * W + uint32_t( i ) );
                Image im( W, H );
                for ( uint32_t bits = 0; bits < ( 1u << n ); ++bits )
                    for ( int erode = 0; erode < 2; ++erode ) {
                        if ( n > 12 && ( ( bits ^ kx ^ ky ) & 3 ) && !ctx().thorough )
                            continue;
                        for ( uint32_t i = 0; i < n; ++i )
                            im.data()[( i / W ) * im.rowSize() + i % W] = bits >> i & 1 ? 255 : 0;
                        phase( "%s bits %x", erode ? "erode" : "dilate", bits );
                        ++ctx().calls;
                        if ( erode )
                            Image_Function::BinaryErode( im, kx, ky );
                        else
                            Image_Function::BinaryDilate( im, kx, ky );
                        ++ctx().compared;
                        for ( uint32_t i = 0; i < n; ++i ) {
                            const bool e = erode ? ( bits & window[i] ) == window[i] : ( bits & window[i] ) != 0;
                            const uint8_t v = im.data()[( i / W ) * im.rowSize() + i % W];
                            if ( v != ( e ? 255 : 0 ) )
                                fail( "pixel %u,%u is %u, expected %d", i % W, i / W, v, e ? 255 : 0 );
                        }
                    }
            }
    if ( next() ) {
        label( "GetGaussianKernel values" );
        for ( uint32_t w = 3; w <= 12; ++w )
            for ( uint32_t h = 3; h <= 12; ++h )
                for ( uint32_t k = 1; k * 2 + 1 <= std::min( w, h ); ++k )
                    for ( float s : { 0.3f, 0.5f, 1.0f, 2.0f, 10.0f, 100.0f } ) {
                        phase( "%ux%u kernel %u sigma %g", w, h, k, s );
                        std::vector<float> f( 5, 7.0f );
                        ++ctx().calls;
                        Image_Function::GetGaussianKernel( f, w, h, k, s );
                        if ( f.size() != size_t( w ) * h )
                            fail( "size of kernel is %zu", f.size() );
                        double total = 0;
                        for ( int y = -int( k ); y <= int( k ); ++y )
                            for ( int x = -int( k ); x <= int( k ); ++x )
                                total += std::exp( -( double( x ) * x + double( y ) * y ) / ( 2.0 * s ) );
                        for ( uint32_t j = 0; j < h; ++j )
                            for ( uint32_t i = 0; i < w; ++i ) {
                                const int x = int( i ) - int( w / 2 ), y = int( j ) - int( h / 2 );
                                double e = 0;
                                if ( std::abs( x ) <= int( k ) && std::abs( y ) <= int( k ) )
                                    e = std::exp( -( double( x ) * x + double( y ) * y ) / ( 2.0 * s ) ) / total;
                                const double v = f[j * w + i];
                                if ( !( std::fabs( v - e ) <= 2e-5 ) )
                                    fail( "weight at %u,%u is %g, expected %g", i, j, v, e );
                            }
                        ++ctx().compared;
                    }
    }
}
