// C24: light correction.
#include "tool/light_correction.h"
#include "penguinv_exception.h"
#include "vp.h"
#include "../memory/hooks.h"
#include <algorithm>
#include <cmath>
#include <functional>

using namespace vp;
using penguinV::Image;

namespace
{
    struct Picture
    {
        uint32_t width, height;
        uint8_t channels, alignment;
        std::vector<uint8_t> bytes; // all of the memory
        Image make() const
        {
            if ( width == 0 )
                return Image();
            Image image( width, height, channels, alignment );
            std::copy( bytes.begin(), bytes.end(), image.data() );
            return image;
        }
        uint32_t rowSize() const
        {
            const uint32_t n = width * channels;
            return ( n + alignment - 1 ) / alignment * alignment;
        }
        uint8_t at( uint32_t x, uint32_t y ) const
        {
            return bytes[y * rowSize() + x];
        }
    };

    Picture picture( uint32_t w, uint32_t h, uint8_t channels, uint8_t alignment, std::function<int( uint32_t, uint32_t )> value )
    {
        Picture p{ w, h, channels, alignment, std::vector<uint8_t>() };
        if ( w == 0 )
            return p;
        p.bytes.resize( size_t( p.rowSize() ) * h );
        for ( size_t i = 0; i < p.bytes.size(); ++i )
            p.bytes[i] = uint8_t( 77 + 31 * i ); // padding which is not to be used
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w * channels; ++x )
                p.bytes[y * p.rowSize() + x] = uint8_t( value( x, y ) );
        return p;
    }

    bool usable( int v )
    {
        return v > 0 && v < 255;
    }

    bool suitable( const Picture & p, int & brightest )
    {
        int low = 255, high = 0;
        for ( uint32_t y = 0; y < p.height; ++y )
            for ( uint32_t x = 0; x < p.width; ++x )
                if ( usable( p.at( x, y ) ) ) {
                    low = std::min<int>( low, p.at( x, y ) );
                    high = std::max<int>( high, p.at( x, y ) );
                }
        brightest = high;
        return p.width > 0 && p.channels == 1 && low < high;
    }

    // The reference: the last successful calibration. A refused one may also drop it.
    struct Model
    {
        const Picture * calibration = nullptr;
        int brightest = 0;
        bool mayBeDropped = false;
    };

    void analyze( LightCorrection & object, Model & model, const Picture & p, bool heapFault = false )
    {
        const Image image = p.make();
        bool refused = false, fault = false;
        ++ctx().calls;
        try {
            if ( heapFault ) {
                heap::Track track( 1 );
                object.analyze( image );
            }
            else
                object.analyze( image );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        catch ( const std::bad_alloc & ) {
            fault = true;
        }
        ++ctx().compared;
        if ( p.width > 0 && !std::equal( p.bytes.begin(), p.bytes.end(), image.data() ) )
            fail( "analysis changed the image" );
        int brightest = 0;
        const bool expected = suitable( p, brightest );
        if ( fault && !heapFault )
            fail( "analysis ran out of memory" );
        if ( fault || refused ) {
            ++ctx().refused;
            if ( refused && expected )
                fail( "analysis of a suitable image was refused" );
            model.mayBeDropped = true;
            return;
        }
        if ( !expected )
            fail( "analysis of an unsuitable image was accepted" );
        model.calibration = &p;
        model.brightest = brightest;
        model.mayBeDropped = false;
    }

    void correct( const LightCorrection & object, const Model & model, const Picture & p, bool whole, uint32_t x0 = 0, uint32_t y0 = 0, uint32_t w = 0, uint32_t h = 0 )
    {
        Image image = p.make();
        if ( whole ) {
            w = p.width;
            h = p.height;
        }
        phase( "correction of %ux%u%s of region %u,%u %ux%u", p.width, p.height, whole ? " without a region" : "", x0, y0, w, h );
        bool refused = false;
        ++ctx().calls;
        try {
            if ( whole )
                object.correct( image );
            else
                object.correct( image, x0, y0, w, h );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        ++ctx().compared;
        auto inside = [&]( uint32_t width, uint32_t height ) { return uint64_t( x0 ) + w <= width && uint64_t( y0 ) + h <= height; };
        const bool valid = p.width > 0 && p.channels == 1 && w > 0 && h > 0 && inside( p.width, p.height );
        const bool covered = valid && model.calibration != nullptr && inside( model.calibration->width, model.calibration->height );
        if ( refused ) {
            ++ctx().refused;
            if ( p.width > 0 && !std::equal( p.bytes.begin(), p.bytes.end(), image.data() ) )
                fail( "a refused correction changed the image" );
            const bool sameSize = covered && p.width == model.calibration->width && p.height == model.calibration->height;
            if ( sameSize && !model.mayBeDropped )
                fail( "a correction was refused" );
            return;
        }
        if ( !covered )
            fail( valid ? "a correction of an area without calibration was accepted" : "a correction with invalid arguments was accepted" );
        if ( image.width() != p.width || image.height() != p.height || image.colorCount() != p.channels || image.rowSize() != p.rowSize() )
            fail( "a correction changed the shape of the image" );
        for ( uint32_t y = 0; y < p.height; ++y )
            for ( uint32_t x = 0; x < p.rowSize(); ++x ) {
                const int before = p.bytes[y * p.rowSize() + x], after = image.data()[y * p.rowSize() + x];
                if ( x < x0 || x - x0 >= w || y < y0 || y - y0 >= h ) {
                    if ( before != after )
                        fail( "byte %u of row %u outside of the region was changed from %d to %d", x, y, before, after );
                    continue;
                }
                const int reference = model.calibration->at( x, y );
                if ( !usable( reference ) ) {
                    if ( before != after )
                        fail( "pixel %u,%u without calibration was changed from %d to %d", x, y, before, after );
                    continue;
                }
                if ( before == reference && after != model.brightest )
                    fail( "pixel %u,%u equal to its calibration %d became %d instead of the brightest %d", x, y, before, after, model.brightest );
                const double exact = double( before ) * model.brightest / reference, expected = std::min( exact, 255.0 );
                if ( std::fabs( after - expected ) > 0.5 + exact / 8000 )
                    fail( "pixel %u,%u of value %d and calibration %d became %d instead of %g", x, y, before, reference, after, expected );
            }
    }

    void incorrect( const LightCorrection & object, const Picture & p )
    {
        phase( "incorrect pixels of %ux%u", p.width, p.height );
        const Image image = p.make();
        std::vector<PointBase2D<uint32_t>> points;
        bool refused = false;
        ++ctx().calls;
        try {
            points = object.findIncorrectPixels( image );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        ++ctx().compared;
        if ( p.width > 0 && !std::equal( p.bytes.begin(), p.bytes.end(), image.data() ) )
            fail( "a search changed the image" );
        if ( refused ) {
            ++ctx().refused;
            if ( p.width > 0 && p.channels == 1 )
                fail( "a search for incorrect pixels was refused" );
            return;
        }
        if ( p.channels != 1 )
            fail( "a search in a colored image was accepted" );
        std::vector<std::pair<uint32_t, uint32_t>> found, expected;
        for ( const auto & point : points )
            found.push_back( std::make_pair( point.y, point.x ) );
        for ( uint32_t y = 0; y < p.height; ++y )
            for ( uint32_t x = 0; x < p.width; ++x )
                if ( !usable( p.at( x, y ) ) )
                    expected.push_back( std::make_pair( y, x ) );
        std::sort( found.begin(), found.end() );
        if ( found != expected )
            fail( "%zu incorrect pixels are found instead of %zu", found.size(), expected.size() );
    }

    // the object lies in memory which is not zero before
    struct Place
    {
        alignas( LightCorrection ) unsigned char memory[sizeof( LightCorrection )];
        LightCorrection * object;
        explicit Place( unsigned char value )
        {
            std::fill( memory, memory + sizeof( memory ), value );
            object = new ( memory ) LightCorrection;
        }
        ~Place()
        {
            object->~LightCorrection();
        }
    };

    // every image of a shape over an alphabet
    void contents( uint32_t w, uint32_t h, uint8_t alignment, const std::vector<int> & alphabet )
    {
        uint64_t total = 1;
        for ( uint32_t i = 0; i < w * h; ++i )
            total *= alphabet.size();
        const uint64_t block = 16;
        for ( uint64_t start = 0; start < total; start += block ) {
            if ( !next() )
                continue;
            label( "image %ux%u with alignment %u, contents from %llu", w, h, alignment, (unsigned long long)start );
            for ( uint64_t n = start; n < std::min( total, start + block ); ++n ) {
                std::vector<int> values;
                for ( uint64_t c = n, i = 0; i < w * h; ++i, c /= alphabet.size() )
                    values.push_back( alphabet[c % alphabet.size()] );
                const Picture p = picture( w, h, 1, alignment, [&]( uint32_t x, uint32_t y ) { return values[y * w + x]; } );
                std::string text;
                for ( int v : values )
                    text += " " + std::to_string( v );
                phase( "calibration%s", text.c_str() );
                Place place( 0x41 );
                Model model;
                analyze( *place.object, model, p );
                correct( *place.object, model, p, true );
                incorrect( *place.object, p );
                if ( model.calibration == nullptr ) {
                    correct( *place.object, model, p, false, 0, 0, 1, 1 );
                    continue;
                }
                // any values corrected
                for ( int shift = 0; shift < 256; shift += 5 ) {
                    const Picture q = picture( w, h, 1, shift % 2 ? 1 : 8, [&]( uint32_t x, uint32_t y ) { return shift == 255 ? 255 : ( shift + 3 * int( y * w + x ) ) % 256; } );
                    correct( *place.object, model, q, true );
                }
                for ( uint32_t x = 0; x <= w; ++x )
                    for ( uint32_t y = 0; y <= h; ++y )
                        for ( uint32_t rw = 0; rw <= w + 1; ++rw )
                            for ( uint32_t rh = 0; rh <= h + 1; ++rh )
                                correct( *place.object, model, p, false, x, y, rw, rh );
            }
        }
    }

    // all values of calibration and of a corrected pixel
    void values()
    {
        for ( int brightest = 2; brightest < 255; ++brightest ) {
            if ( !next() )
                continue;
            label( "brightest value %d", brightest );
            const Picture p = picture( uint32_t( brightest ), 1, 1, 1, []( uint32_t x, uint32_t ) { return int( x ) + 1; } );
            Place place( 0xFF );
            Model model;
            analyze( *place.object, model, p );
            correct( *place.object, model, p, true );
            for ( int value = 0; value < 256; ++value ) {
                const Picture q = picture( uint32_t( brightest ), 1, 1, 1, [=]( uint32_t, uint32_t ) { return value; } );
                correct( *place.object, model, q, true );
            }
        }
    }

    // more pixels than 16 bits can count
    void bigPictures()
    {
        const std::pair<uint32_t, uint32_t> sizes[] = { { 70001, 1 }, { 1, 70001 }, { 300, 301 }, { 257, 2 } };
        for ( const auto & size : sizes )
            for ( uint8_t alignment : { 1, 8 } ) {
                if ( !next() )
                    continue;
                label( "image %ux%u with alignment %u", size.first, size.second, alignment );
                const Picture p = picture( size.first, size.second, 1, alignment, []( uint32_t x, uint32_t y ) { return int( 1 + ( x * 31 + y * 17 ) % 251 ); } );
                const Picture q = picture( size.first, size.second, 1, 1, []( uint32_t x, uint32_t y ) { return int( ( x * 7 + y * 3 + x / 256 ) % 256 ); } );
                Place place( 0x5A );
                Model model;
                analyze( *place.object, model, p );
                correct( *place.object, model, p, true );
                correct( *place.object, model, q, true );
                correct( *place.object, model, q, false, 0, 0, size.first, size.second );
            }
    }

    // regions which do not fit, also by wrapping around
    void regions()
    {
        const Picture p = picture( 5, 4, 1, 8, []( uint32_t x, uint32_t y ) { return int( 10 + 7 * x + 31 * y ); } );
        const uint32_t at[] = { 0, 1, 2, 3, 4, 5, 6, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFCu, 0xFFFFFFFEu, 0xFFFFFFFFu };
        for ( uint32_t x : at )
            for ( uint32_t y : at ) {
                if ( !next() )
                    continue;
                label( "region at %u,%u", x, y );
                Place place( 0 ), other( 0x5A );
                Model model, none;
                analyze( *place.object, model, p );
                for ( uint32_t w : at )
                    for ( uint32_t h : at ) {
                        correct( *place.object, model, p, false, x, y, w, h );
                        correct( *other.object, none, p, false, x, y, w, h );
                    }
            }
    }

    // all sequences of operations
    void sequences( int depth )
    {
        std::vector<Picture> pictures;
        pictures.push_back( picture( 3, 2, 1, 1, []( uint32_t x, uint32_t y ) { return int( 20 + 40 * x + 15 * y ); } ) );
        pictures.push_back( picture( 4, 3, 1, 4, []( uint32_t x, uint32_t y ) { return x == 1 ? 0 : x == 2 ? 255 : int( 200 - 30 * x - 17 * y ); } ) );
        pictures.push_back( picture( 2, 5, 1, 16, []( uint32_t x, uint32_t y ) { return int( 1 + 2 * x + y ); } ) );
        pictures.push_back( picture( 3, 2, 1, 8, []( uint32_t x, uint32_t y ) { return int( 254 - x * y ); } ) );
        pictures.push_back( picture( 4, 4, 1, 4, []( uint32_t, uint32_t ) { return 90; } ) ); // flat
        pictures.push_back( picture( 7, 1, 1, 1, []( uint32_t x, uint32_t ) { return x % 2 ? 255 : 0; } ) ); // nothing usable
        pictures.push_back( picture( 3, 2, 3, 4, []( uint32_t x, uint32_t y ) { return int( 20 + 4 * x + 15 * y ); } ) ); // colored
        pictures.push_back( picture( 2, 2, 4, 1, []( uint32_t x, uint32_t y ) { return int( 20 + 4 * x + 15 * y ); } ) );
        pictures.push_back( picture( 0, 0, 1, 1, []( uint32_t, uint32_t ) { return 0; } ) ); // empty
        pictures.push_back( picture( 9, 6, 1, 1, []( uint32_t x, uint32_t y ) { return int( 3 + 5 * x + 30 * y ); } ) );
        const int count = int( pictures.size() ), operations = count + 3;
        uint64_t total = 1;
        for ( int i = 0; i < depth; ++i )
            total *= uint64_t( operations );
        const uint64_t block = 32;
        for ( uint64_t start = 0; start < total; start += block ) {
            if ( !next() )
                continue;
            for ( uint64_t n = start; n < std::min( total, start + block ); ++n ) {
                Place first( 0x33 ), second( 0xCC );
                Model model, otherModel;
                std::string text;
                uint64_t c = n;
                for ( int step = 0; step < depth; ++step, c /= uint64_t( operations ) ) {
                    const int op = int( c % uint64_t( operations ) );
                    text += op < count ? " analyze(" + std::to_string( op ) + ")" : op == count ? " copy" : op == count + 1 ? " swap" : " fault";
                    label( "sequence%s", text.c_str() );
                    if ( op < count )
                        analyze( *first.object, model, pictures[size_t( op )] );
                    else if ( op == count ) {
                        *second.object = *first.object;
                        otherModel = model;
                    }
                    else if ( op == count + 1 ) {
                        std::swap( *first.object, *second.object );
                        std::swap( model, otherModel );
                    }
                    else
                        analyze( *first.object, model, pictures[1], true );
                }
                for ( const Picture & p : pictures ) {
                    correct( *first.object, model, p, true );
                    correct( *first.object, model, p, false, 1, 1, 2, 1 );
                    correct( *first.object, model, p, false, 0, 0, 3, 2 );
                    incorrect( *first.object, p );
                    correct( *second.object, otherModel, p, true );
                }
            }
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    const bool thorough = ctx().thorough;
    const std::vector<int> few = { 0, 1, 2, 100, 254, 255 };
    const std::vector<int> many = { 0, 1, 2, 3, 7, 100, 127, 128, 200, 253, 254, 255 };
    contents( 1, 1, 1, many );
    contents( 2, 1, 4, many );
    contents( 1, 2, 8, many );
    contents( 3, 1, 1, many );
    contents( 2, 2, 4, few );
    contents( 1, 4, 1, few );
    values();
    regions();
    bigPictures();
    sequences( 3 );
    if ( thorough ) {
        contents( 2, 2, 1, many );
        contents( 3, 2, 4, few );
        contents( 5, 1, 8, few );
        sequences( 4 );
    }
    vp::finish();
    return 0;
}
