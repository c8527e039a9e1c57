// C25: saved images are loaded back.
#include "common.h"
#include <jpeglib.h>
#include <climits>
#include <png.h>

namespace
{
    bool supported( Kind kind, uint8_t channels )
    {
        return channels == 1 || channels == 3 || ( channels == 4 && ( kind == BMP || kind == RAW ) );
    }

    enum
    {
        OTHER_READER = 4
    };

    void compare( Kind kind, const Image & original, uint32_t x0, uint32_t y0, uint32_t w, uint32_t h, const Content & c, int way )
    {
        ++ctx().compared;
        if ( c.width != w || c.height != h || c.channels != original.colorCount() )
            fail( "image is loaded as %s instead of %ux%ux%u (way %d)", c.shape().c_str(), w, h, original.colorCount(), way );
        if ( c.width != w || c.height != h || c.channels != original.colorCount() || c.pixels.size() != size_t( w ) * h * c.channels )
            return;
        size_t i = 0;
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x )
                for ( uint32_t k = 0; k < c.channels; ++k, ++i ) {
                    const int expected = original.data()[size_t( y0 + y ) * original.rowSize() + ( x0 + x ) * c.channels + k];
                    if ( std::abs( expected - int( c.pixels[i] ) ) > ( kind == JPEG ? 8 : 0 ) ) {
                        fail( "pixel %u,%u channel %u is loaded as %u instead of %d (way %d)", x, y, k, c.pixels[i], expected, way );
                        return;
                    }
                }
    }

    // ---- readers which have nothing in common with the library. Colors of images are stored as blue, green and red
    uint32_t number( const Bytes & b, size_t at, size_t bytes )
    {
        uint32_t v = 0;
        for ( size_t i = bytes; i > 0; --i )
            v = v << 8 | b[at + i - 1];
        return v;
    }

    Content readBitmap( const Bytes & b )
    {
        Content c;
        if ( b.size() < 54 || b[0] != 'B' || b[1] != 'M' || number( b, 14, 4 ) != 40 ) {
            fail( "the file has no header of a bitmap" );
            return c;
        }
        const uint32_t offset = number( b, 10, 4 ), bits = number( b, 28, 2 ), used = number( b, 46, 4 );
        const int32_t h = int32_t( number( b, 22, 4 ) );
        c.width = number( b, 18, 4 );
        c.height = uint32_t( std::abs( h ) );
        c.channels = bits / 8;
        const uint64_t line = ( uint64_t( c.width ) * bits + 31 ) / 32 * 4, size = line * c.height;
        const uint64_t palette = bits == 8 ? ( used == 0 ? 256 : used ) * 4 : 0;
        if ( number( b, 2, 4 ) != b.size() )
            fail( "the header contains %u as size of the file of %zu bytes", number( b, 2, 4 ), b.size() );
        if ( number( b, 26, 2 ) != 1 || ( bits != 8 && bits != 24 && bits != 32 ) || number( b, 30, 4 ) != 0 )
            fail( "the header contains %u planes, %u bits per pixel, compression %u", number( b, 26, 2 ), bits, number( b, 30, 4 ) );
        if ( number( b, 34, 4 ) != 0 && number( b, 34, 4 ) != size )
            fail( "the header contains %u as size of an image of %u bytes", number( b, 34, 4 ), unsigned( size ) );
        if ( used > 256 || offset < 54 + palette || offset + size > b.size() ) {
            fail( "the header contains %u as position of pixels in a file of %zu bytes with %u used colors", offset, b.size(), used );
            return c;
        }
        if ( offset + size != b.size() )
            fail( "pixels end at byte %zu of %zu", size_t( offset + size ), b.size() );
        for ( size_t i = 0; i < palette / 4; ++i )
            if ( b[54 + 4 * i] != i || b[55 + 4 * i] != i || b[56 + 4 * i] != i ) {
                fail( "palette has another color than gray level %zu", i );
                break;
            }
        for ( uint32_t y = 0; y < c.height; ++y ) {
            const uint8_t * row = b.data() + offset + line * ( h > 0 ? c.height - 1 - y : y );
            c.pixels.insert( c.pixels.end(), row, row + size_t( c.width ) * c.channels );
        }
        return c;
    }

    // chunks follow one another up to the last one, which is empty
    void structure( const Bytes & b )
    {
        const auto big = [&b]( size_t at ) { return uint32_t( b[at] ) << 24 | uint32_t( b[at + 1] ) << 16 | uint32_t( b[at + 2] ) << 8 | b[at + 3]; };
        bool data = false;
        for ( size_t at = 8;; ) {
            if ( at + 12 > b.size() || big( at ) > b.size() - at - 12 ) {
                fail( "the file of %zu bytes has no complete chunk at byte %zu", b.size(), at );
                return;
            }
            const size_t length = big( at );
            const std::string name( b.begin() + ptrdiff_t( at ) + 4, b.begin() + ptrdiff_t( at ) + 8 );
            uint32_t crc = 0xFFFFFFFFu;
            for ( size_t i = at + 4; i < at + 8 + length; ++i ) {
                crc ^= b[i];
                for ( int bit = 0; bit < 8; ++bit )
                    crc = crc >> 1 ^ ( ( crc & 1 ) != 0 ? 0xEDB88320u : 0u );
            }
            if ( ~crc != big( at + 8 + length ) )
                fail( "chunk %s at byte %zu has a wrong checksum", name.c_str(), at );
            if ( ( at == 8 ) != ( name == "IHDR" ) )
                fail( "chunk %s at byte %zu", name.c_str(), at );
            data = data || name == "IDAT";
            at += 12 + length;
            if ( name == "IEND" ) {
                if ( at != b.size() || length != 0 || !data )
                    fail( "the last chunk of %zu bytes ends at byte %zu of %zu, %s pixels", length, at, b.size(), data ? "with" : "without" );
                return;
            }
        }
    }

    Content readPng( const Bytes & b )
    {
        Content c;
        structure( b );
        png_image image;
        memset( &image, 0, sizeof image );
        image.version = PNG_IMAGE_VERSION;
        if ( !png_image_begin_read_from_memory( &image, b.data(), b.size() ) ) {
            fail( "libpng refuses the file: %s", image.message );
            return c;
        }
        c.width = image.width;
        c.height = image.height;
        c.channels = ( image.format & PNG_FORMAT_FLAG_COLOR ) != 0 ? 3 : 1;
        if ( ( image.format & ~uint32_t( PNG_FORMAT_FLAG_COLOR ) ) != 0 )
            fail( "the file has format %x", unsigned( image.format ) );
        image.format = c.channels == 3 ? PNG_FORMAT_BGR : PNG_FORMAT_GRAY;
        c.pixels.resize( PNG_IMAGE_SIZE( image ) );
        if ( !png_image_finish_read( &image, nullptr, c.pixels.data(), 0, nullptr ) )
            fail( "libpng refuses the file: %s", image.message );
        return c;
    }

    Content readJpeg( const Bytes & b )
    {
        Content c;
        if ( b.size() < 4 || b[0] != 0xFF || b[1] != 0xD8 || b[b.size() - 2] != 0xFF || b[b.size() - 1] != 0xD9 )
            fail( "the file of %zu bytes does not begin and end as an image", b.size() );
        jpeg_decompress_struct info;
        jpeg_error_mgr error;
        info.err = jpeg_std_error( &error );
        error.error_exit = []( j_common_ptr ) { throw std::runtime_error( "libjpeg refuses the file" ); };
        jpeg_create_decompress( &info );
        try {
            jpeg_mem_src( &info, b.data(), static_cast<unsigned long>( b.size() ) );
            jpeg_read_header( &info, TRUE );
            c.channels = uint32_t( info.num_components );
            jpeg_start_decompress( &info );
            c.width = info.output_width;
            c.height = info.output_height;
            if ( info.output_components != int( c.channels ) )
                fail( "the file has %d components and its colors %d", info.num_components, info.output_components );
            Bytes row( size_t( c.width ) * uint32_t( info.output_components ) );
            while ( info.output_scanline < info.output_height ) {
                JSAMPROW line = row.data();
                jpeg_read_scanlines( &info, &line, 1 );
                if ( c.channels == 3 )
                    for ( size_t i = 0; i < row.size(); i += 3 )
                        std::swap( row[i], row[i + 2] );
                c.pixels.insert( c.pixels.end(), row.begin(), row.end() );
            }
            jpeg_finish_decompress( &info );
            if ( error.num_warnings != 0 )
                fail( "libjpeg found %ld errors", error.num_warnings );
        }
        catch ( const std::exception & e ) {
            fail( "%s", e.what() );
        }
        jpeg_destroy_decompress( &info );
        return c;
    }

    void once( Kind kind, const Image & image, bool byExtension, bool whole, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
    {
        phase( "%s %u,%u %ux%u%s", whole ? "whole" : "region", x, y, w, h, byExtension ? " by extension" : "" );
        const std::string path = std::string( "image" ) + extension[kind];
        const Bytes old( 20000, 0x11 );
        put( path, old );
        const Bytes before( image.data(), image.data() + size_t( image.rowSize() ) * image.height() );
        const bool valid = whole || ( w > 0 && h > 0 && uint64_t( x ) + w <= image.width() && uint64_t( y ) + h <= image.height() );
        Outcome o;
        {
            const Resources resources;
            o = guarded( [&] { save( kind, path, image, byExtension, whole, x, y, w, h ); } );
            resources.unchanged( "saving" );
        }
        ++ctx().compared;
        if ( !std::equal( before.begin(), before.end(), image.data() ) )
            fail( "saving changed the image" );
        if ( !valid && o != REFUSED )
            fail( "saving of an invalid region was accepted" );
        if ( valid && supported( kind, image.colorCount() ) && o != DONE )
            fail( "saving was refused" );
        if ( o != DONE || !valid )
            return;
        if ( kind == RAW ) {
            const Bytes file = get( path );
            if ( file.size() != size_t( w ) * h * image.colorCount() )
                fail( "the file has %zu bytes", file.size() );
        }
        else
            compare( kind, image, x, y, w, h, kind == BMP ? readBitmap( get( path ) ) : kind == PNG ? readPng( get( path ) ) : readJpeg( get( path ) ), OTHER_READER );
        for ( int way = 0; way < ( kind == RAW ? 1 : 4 ); ++way ) {
            Content c;
            {
                Image loaded;
                const Outcome l = guarded( [&] { loaded = load( kind, path, way, Shape{ w, h, image.colorCount() } ); } );
                if ( l != DONE )
                    fail( "a saved file was refused by loading (way %d)", way );
                c = content( loaded );
            }
            compare( kind, image, x, y, w, h, c, way );
        }
    }

    void sizes( Kind kind, uint32_t w, uint32_t h, bool everyRegion, std::initializer_list<int> alignments, uint32_t variant = 0 )
    {
        for ( uint8_t channels = 1; channels <= 5; ++channels )
            for ( int alignment : alignments ) {
                if ( !next() )
                    continue;
                label( "%s %ux%ux%u alignment %d contents %u", kindName[kind], w, h, channels, alignment, variant );
                const Image image = makeImage( kind, Shape{ w, h, channels }, uint8_t( alignment ), variant );
                once( kind, image, false, true, 0, 0, w, h );
                if ( kind == RAW )
                    continue;
                once( kind, image, true, true, 0, 0, w, h );
                if ( !everyRegion ) {
                    once( kind, image, false, false, w / 3, h / 2, w - w / 3, h - h / 2 );
                    once( kind, image, true, false, w - 1, h - 1, 1, 1 );
                    continue;
                }
                for ( uint32_t x = 0; x <= w; ++x )
                    for ( uint32_t y = 0; y <= h; ++y )
                        for ( uint32_t rw = 0; rw <= w - x + 1; ++rw )
                            for ( uint32_t rh = 0; rh <= h - y + 1; ++rh )
                                once( kind, image, ( x + y + rw + rh ) % 2 == 0, false, x, y, rw, rh );
            }
    }

    void refusals( Kind kind )
    {
        const uint32_t at[] = { 0, 1, 2, 3, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFDu, 0xFFFFFFFEu, 0xFFFFFFFFu };
        const Image image = makeImage( kind, Shape{ 3, 3, 1 }, 4, 0 );
        for ( uint32_t x : at ) {
            if ( kind == RAW )
                break; // without regions
            for ( uint32_t y : at ) {
                if ( !next() )
                    continue;
                label( "%s region at %u,%u", kindName[kind], x, y );
                for ( uint32_t w : at )
                    for ( uint32_t h : at )
                        once( kind, image, false, false, x, y, w, h );
            }
        }
        if ( !next() )
            return;
        label( "%s empty image and bad paths", kindName[kind] );
        const Image empty;
        for ( int ext = 0; ext < 2; ++ext ) {
            phase( "empty image" );
            if ( guarded( [&] { save( kind, std::string( "x" ) + extension[kind], empty, ext == 1, true, 0, 0, 0, 0 ); } ) != REFUSED )
                fail( "an empty image was saved" );
            phase( "empty path" );
            if ( ext == 0 && guarded( [&] { load( kind, "", 0, Shape{ 1, 1, 1 } ); } ) != REFUSED )
                fail( "an empty path was accepted" );
        }
    }

    // the quality which was set is the one of files saved afterwards
    void quality( int value, bool whole )
    {
        if ( !next() )
            return;
        label( "JPEG quality %d %s", value, whole ? "whole" : "region" );
        const int before = 37;
        Jpeg_Operation::SetImageQuality( before );
        const Outcome o = guarded( [&] { Jpeg_Operation::SetImageQuality( value ); } );
        const bool valid = value >= 1 && value <= 100;
        ++ctx().compared;
        if ( o != ( valid ? DONE : REFUSED ) )
            fail( "quality was %s", valid ? "refused" : "accepted" );
        const int used = valid ? value : before;
        if ( Jpeg_Operation::GetImageQuality() != used )
            fail( "quality is %d instead of %d", Jpeg_Operation::GetImageQuality(), used );
        const uint8_t channels = value % 2 == 0 ? 1 : 3;
        const Image image = makeImage( JPEG, Shape{ 9, 10, channels }, 1, 0 );
        if ( guarded( [&] { save( JPEG, "quality.jpg", image, false, whole, 0, 0, 9, 10 ); } ) != DONE )
            fail( "saving was refused" );
        const Bytes file = get( "quality.jpg" );
        jpeg_error_mgr error;
        jpeg_std_error( &error );
        error.error_exit = []( j_common_ptr ) { throw std::runtime_error( "libjpeg refuses the file" ); };
        jpeg_decompress_struct in;
        in.err = &error;
        jpeg_create_decompress( &in );
        jpeg_compress_struct out;
        out.err = &error;
        jpeg_create_compress( &out );
        try {
            jpeg_mem_src( &in, file.data(), static_cast<unsigned long>( file.size() ) );
            jpeg_read_header( &in, TRUE );
            out.input_components = channels;
            out.in_color_space = channels == 1 ? JCS_GRAYSCALE : JCS_RGB;
            jpeg_set_defaults( &out );
            jpeg_set_quality( &out, used, TRUE );
            for ( int i = 0; i < in.num_components; ++i ) {
                const JQUANT_TBL * have = in.quant_tbl_ptrs[in.comp_info[i].quant_tbl_no];
                const JQUANT_TBL * want = out.quant_tbl_ptrs[out.comp_info[i].quant_tbl_no];
                ++ctx().compared;
                for ( int k = 0; k < 64; ++k )
                    if ( have == nullptr || have->quantval[k] != want->quantval[k] ) {
                        fail( "component %d of the file has another quality than %d", i, used );
                        break;
                    }
            }
        }
        catch ( const std::exception & e ) {
            fail( "%s", e.what() );
        }
        jpeg_destroy_decompress( &in );
        jpeg_destroy_compress( &out );
        Jpeg_Operation::SetImageQuality( 100 );
    }

    template <typename T>
    void raw( uint32_t w, uint32_t h, uint8_t channels, uint8_t alignment )
    {
        if ( !next() )
            return;
        label( "raw of %zu bytes %ux%ux%u alignment %u", sizeof( T ), w, h, channels, alignment );
        penguinV::ImageTemplate<T> image( w, h, channels, alignment );
        const size_t total = size_t( image.rowSize() ) * h;
        for ( size_t i = 0; i < total; ++i )
            image.data()[i] = T( ( i + 1 ) * 0x9E3779B97F4A7C15ull >> 7 );
        std::vector<T> before( image.data(), image.data() + total );
        if ( guarded( [&] { Raw_Operation::Save( "raw.raw", image ); } ) != DONE )
            fail( "saving was refused" );
        penguinV::ImageTemplate<T> loaded;
        if ( guarded( [&] { loaded = Raw_Operation::Load<T>( "raw.raw", w, h, channels ); } ) != DONE || loaded.width() != w || loaded.height() != h || loaded.colorCount() != channels )
            fail( "a saved file is not loaded" );
        Raw_Operation::LittleEndianToBigEndian( image );
        ctx().compared += 2;
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w * channels; ++x ) {
                const T value = before[y * image.rowSize() + x];
                if ( loaded.data()[y * loaded.rowSize() + x] != value )
                    fail( "value %u of row %u is different", x, y );
                T swapped = value;
                std::reverse( reinterpret_cast<uint8_t *>( &swapped ), reinterpret_cast<uint8_t *>( &swapped ) + sizeof( T ) );
                if ( image.data()[y * image.rowSize() + x] != swapped )
                    fail( "bytes of value %u of row %u are not swapped", x, y );
            }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    silence();
    const bool thorough = ctx().thorough;
    for ( int k = 0; k < KINDS; ++k ) { // everything allocated once
        const Kind kind = Kind( k );
        const Image image = makeImage( kind, Shape{ 2, 2, 1 }, 1, 0 );
        const std::string path = std::string( "first" ) + extension[kind];
        save( kind, path, image, false, true, 0, 0, 2, 2 );
        load( kind, path, 0, Shape{ 2, 2, 1 } );
        guarded( [&] { save( kind, path, Image(), false, true, 0, 0, 0, 0 ); } );
    }
    for ( int k = 0; k < KINDS; ++k ) {
        const Kind kind = Kind( k );
        const uint32_t small = thorough ? 4 : 3, big = thorough ? 12 : 9;
        for ( uint32_t w = 1; w <= big; ++w )
            for ( uint32_t h = 1; h <= big; ++h )
                sizes( kind, w, h, w <= small && h <= small, { 1, 4, 32 } );
        for ( uint32_t w : { 31u, 32u, 33u, 65u, 200u } ) {
            sizes( kind, w, 1, false, { 1, 16 } );
            sizes( kind, 1, w, false, { 1, 3 } );
            sizes( kind, w, 17, false, { 1, 7 } );
        }
        sizes( kind, 6, 5, false, { 1, 2, 3, 5, 8, 64, 255 } );
        sizes( kind, 5, 6, true, { 1 } );
        if ( kind != JPEG ) {
            sizes( kind, 5, 3, false, { 1 }, 1 );
            sizes( kind, 5, 3, false, { 4 }, 2 );
        }
        sizes( kind, 300, 250, false, { 1, 128 } );
        if ( kind == BMP || kind == RAW )
            sizes( kind, 1500, 1000, false, { 1 } ); // more than one block of reading
        if ( thorough )
            sizes( kind, 2100, 2100, false, { 1, 4 } );
        refusals( kind );
    }
    for ( int value = -3; value <= 104; ++value )
        for ( int whole = 0; whole < 2; ++whole )
            quality( value, whole == 1 );
    for ( int value : { INT_MIN, -256, -156, 128, 256, 257, 356, 65537, INT_MAX } )
        quality( value, true );
    for ( uint32_t w = 1; w <= 5; ++w )
        for ( uint32_t h = 1; h <= 3; ++h )
            for ( uint8_t channels : { 1, 3, 4 } )
                for ( uint8_t alignment : { 1, 4, 16 } ) {
                    raw<uint16_t>( w, h, channels, alignment );
                    raw<uint32_t>( w, h, channels, alignment );
                    raw<uint64_t>( w, h, channels, alignment );
                    raw<uint8_t>( w, h, channels, alignment );
                }
    vp::finish();
    return 0;
}
