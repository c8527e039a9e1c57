// C26: any file content is either an image or refused.
#include "common.h"
#include <jpeglib.h>
#include <png.h>
#include <sys/syscall.h>

// faults of reading: the n-th call fails or gives less than asked
static int64_t readCall, readFaultAt = -1;
static int readFaultKind;
extern "C" ssize_t read( int fd, void * buffer, size_t size )
{
    if ( readFaultAt >= 0 && readCall++ == readFaultAt ) {
        if ( readFaultKind == 0 ) {
            errno = EIO;
            return -1;
        }
        if ( readFaultKind == 1 )
            return 0;
        size = size > 3 ? 3 : size;
    }
    return syscall( SYS_read, fd, buffer, size );
}

namespace
{
    struct Sample
    {
        std::string name;
        Kind kind;
        Bytes bytes;
        bool loadable; // in the supported set, so it must be loaded as the following image
        Content expected;
        int tolerance;
    };

    uint8_t noise( uint32_t i )
    {
        i = i * 2654435761u + 97;
        i ^= i >> 15;
        i *= 2246822519u;
        return uint8_t( i >> 13 );
    }

    void add16( Bytes & b, uint32_t v )
    {
        b.push_back( uint8_t( v ) );
        b.push_back( uint8_t( v >> 8 ) );
    }
    void add32( Bytes & b, uint32_t v )
    {
        add16( b, v );
        add16( b, v >> 16 );
    }
    uint32_t at16( const Bytes & b, size_t i )
    {
        return uint32_t( b[i] | b[i + 1] << 8 );
    }
    uint32_t at32( const Bytes & b, size_t i )
    {
        return at16( b, i ) | at16( b, i + 2 ) << 16;
    }
    void set32( Bytes & b, size_t i, uint32_t v )
    {
        for ( int k = 0; k < 4; ++k )
            b[i + size_t( k )] = uint8_t( v >> ( 8 * k ) );
    }
    void set32be( Bytes & b, size_t i, uint32_t v )
    {
        for ( int k = 0; k < 4; ++k )
            b[i + size_t( k )] = uint8_t( v >> ( 24 - 8 * k ) );
    }
    uint32_t at32be( const Bytes & b, size_t i )
    {
        return uint32_t( b[i] ) << 24 | uint32_t( b[i + 1] ) << 16 | uint32_t( b[i + 2] ) << 8 | b[i + 3];
    }

    // ---- bitmap: palette 0: none, 1: gray-scale, 2: colors, 3: a gap of 8 bytes
    Sample bitmap( uint32_t w, uint32_t h, uint32_t bits, bool core, bool topDown, int palette, bool sizeGiven )
    {
        Sample s;
        s.name = "bitmap " + std::to_string( w ) + "x" + std::to_string( h ) + "x" + std::to_string( bits ) + ( core ? " core" : "" ) + ( topDown ? " top-down" : "" ) + " palette "
                 + std::to_string( palette );
        s.kind = BMP;
        s.loadable = true;
        s.tolerance = 0;
        const uint32_t line = ( w * bits / 8 + 3 ) / 4 * 4, gap = palette == 0 ? 0 : palette == 3 ? 8 : 1024, offset = 14 + ( core ? 12 : 40 ) + gap;
        Bytes & b = s.bytes;
        add16( b, 0x4D42 );
        add32( b, offset + line * h );
        add32( b, 0 );
        add32( b, offset );
        if ( core ) {
            add32( b, 12 );
            add16( b, w );
            add16( b, h );
            add16( b, 1 );
            add16( b, bits );
        }
        else {
            add32( b, 40 );
            add32( b, w );
            add32( b, topDown ? 0u - h : h );
            add16( b, 1 );
            add16( b, bits );
            add32( b, 0 );
            add32( b, sizeGiven ? line * h : 0 );
            add32( b, 2835 );
            add32( b, 2835 );
            add32( b, 0 );
            add32( b, 0 );
        }
        for ( uint32_t i = 0; i < gap; ++i )
            b.push_back( palette == 1 ? uint8_t( i % 4 == 3 ? 0 : i / 4 ) : noise( i + 5 ) );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < line; ++x )
                b.push_back( x < w * bits / 8 ? noise( y * 131 + x ) : 0 );
        return s;
    }

    // what a bitmap file describes
    bool bitmapMeaning( const Bytes & b, Content & c )
    {
        c = Content();
        if ( b.size() < 26 || at16( b, 0 ) != 0x4D42 )
            return false;
        const uint32_t offset = at32( b, 10 ), header = at32( b, 14 );
        int64_t w, h;
        uint32_t planes, bits;
        if ( header == 12 ) {
            w = at16( b, 18 );
            h = at16( b, 20 );
            planes = at16( b, 22 );
            bits = at16( b, 24 );
        }
        else if ( header == 40 && b.size() >= 54 ) {
            w = int32_t( at32( b, 18 ) );
            h = int32_t( at32( b, 22 ) );
            planes = at16( b, 26 );
            bits = at16( b, 28 );
        }
        else
            return false;
        const bool bottomUp = header == 12 || h > 0;
        h = std::abs( h );
        if ( w <= 0 || h <= 0 || planes != 1 || ( bits != 8 && bits != 24 && bits != 32 ) || offset < 14 + header )
            return false;
        const uint64_t line = ( uint64_t( w ) * bits / 8 + 3 ) / 4 * 4;
        if ( uint64_t( offset ) + line * uint64_t( h ) > b.size() )
            return false;
        bool colors = false;
        const size_t palette = 14 + header;
        if ( bits == 8 && offset - palette == 1024 )
            for ( size_t i = 0; i < 1024; ++i )
                colors = colors || b[palette + i] != ( i % 4 == 3 ? 0 : i / 4 );
        c.width = uint32_t( w );
        c.height = uint32_t( h );
        c.channels = colors ? 3 : bits / 8;
        for ( int64_t y = 0; y < h; ++y ) {
            const uint8_t * row = b.data() + offset + line * uint64_t( bottomUp ? h - 1 - y : y );
            for ( uint64_t x = 0; x < uint64_t( w ) * bits / 8; ++x ) {
                if ( !colors )
                    c.pixels.push_back( row[x] );
                else
                    for ( size_t k = 0; k < 3; ++k )
                        c.pixels.push_back( b[palette + row[x] * 4u + k] );
            }
        }
        return true;
    }

    // ---- png
    void pngAppend( png_structp png, png_bytep data, size_t size )
    {
        Bytes * out = static_cast<Bytes *>( png_get_io_ptr( png ) );
        out->insert( out->end(), data, data + size );
    }

    Sample pngFile( uint32_t w, uint32_t h, int type, int depth, bool interlace, bool transparency )
    {
        Sample s;
        s.name = "png " + std::to_string( w ) + "x" + std::to_string( h ) + " type " + std::to_string( type ) + " depth " + std::to_string( depth ) + ( interlace ? " interlaced" : "" )
                 + ( transparency ? " transparent" : "" );
        s.kind = PNG;
        s.loadable = true;
        s.tolerance = depth == 16 ? 1 : 0;
        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr );
        png_infop info = png_create_info_struct( png );
        png_set_write_fn( png, &s.bytes, pngAppend, nullptr );
        png_set_IHDR( png, info, w, h, depth, type, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT );
        png_color palette[256];
        for ( uint32_t i = 0; i < 256; ++i ) {
            palette[i].red = noise( i * 3 );
            palette[i].green = noise( i * 3 + 1 );
            palette[i].blue = noise( i * 3 + 2 );
        }
        if ( type == PNG_COLOR_TYPE_PALETTE )
            png_set_PLTE( png, info, palette, 1 << depth );
        png_byte alpha[2] = { 10, 200 };
        png_color_16 color = { 1, 7, 8, 9, 1 };
        if ( transparency )
            png_set_tRNS( png, info, alpha, 2, &color );
        png_write_info( png, info );
        const uint32_t samples = type == 0 || type == 3 ? 1 : type == 4 ? 2 : type == 2 ? 3 : 4;
        s.expected.width = w;
        s.expected.height = h;
        s.expected.channels = type == 0 || type == 4 ? 1 : 3;
        std::vector<Bytes> rows( h, Bytes( ( size_t( w ) * samples * uint32_t( depth ) + 7 ) / 8 ) );
        std::vector<png_bytep> pointers;
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                uint32_t value[4] = { 0, 0, 0, 0 };
                for ( uint32_t k = 0; k < samples; ++k ) {
                    const uint32_t full = uint32_t( noise( y * 57 + x * 5 + k ) ) << 8 | noise( y * 91 + x * 3 + k + 1000 );
                    value[k] = full >> ( 16 - depth );
                    const size_t bit = ( size_t( x ) * samples + k ) * uint32_t( depth );
                    if ( depth == 16 ) {
                        rows[y][bit / 8] = uint8_t( value[k] >> 8 );
                        rows[y][bit / 8 + 1] = uint8_t( value[k] );
                        value[k] >>= 8;
                    }
                    else
                        rows[y][bit / 8] = uint8_t( rows[y][bit / 8] | value[k] << ( 8 - uint32_t( depth ) - bit % 8 ) );
                }
                if ( type == 3 ) {
                    const png_color p = palette[value[0]];
                    s.expected.pixels.insert( s.expected.pixels.end(), { p.blue, p.green, p.red } );
                }
                else if ( s.expected.channels == 1 )
                    s.expected.pixels.push_back( uint8_t( depth < 8 ? value[0] * 255 / ( ( 1u << depth ) - 1 ) : value[0] ) );
                else
                    s.expected.pixels.insert( s.expected.pixels.end(), { uint8_t( value[2] ), uint8_t( value[1] ), uint8_t( value[0] ) } );
            }
            pointers.push_back( rows[y].data() );
        }
        png_write_image( png, pointers.data() );
        png_write_end( png, info );
        png_destroy_write_struct( &png, &info );
        return s;
    }

    uint32_t crc( const uint8_t * data, size_t size )
    {
        uint32_t c = 0xFFFFFFFFu;
        for ( size_t i = 0; i < size; ++i ) {
            c ^= data[i];
            for ( int k = 0; k < 8; ++k )
                c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1;
        }
        return ~c;
    }

    struct Chunk
    {
        size_t start, size; // whole chunk with length, type and check sum
    };
    std::vector<Chunk> chunks( const Bytes & b )
    {
        std::vector<Chunk> result;
        for ( size_t i = 8; i + 12 <= b.size(); ) {
            const size_t size = size_t( at32be( b, i ) ) + 12;
            result.push_back( Chunk{ i, size } );
            i += size;
        }
        return result;
    }
    void repair( Bytes & b, const Chunk & c )
    {
        set32be( b, c.start + c.size - 4, crc( b.data() + c.start + 4, c.size - 8 ) );
    }

    // ---- jpeg
    Sample jpegFile( uint32_t w, uint32_t h, int channels, bool progressive, bool full, int restart )
    {
        Sample s;
        s.name = "jpeg " + std::to_string( w ) + "x" + std::to_string( h ) + "x" + std::to_string( channels ) + ( progressive ? " progressive" : "" ) + ( full ? " full chroma" : "" )
                 + ( restart ? " restart" : "" );
        s.kind = JPEG;
        s.loadable = true;
        s.tolerance = 8;
        jpeg_compress_struct info;
        jpeg_error_mgr error;
        info.err = jpeg_std_error( &error );
        jpeg_create_compress( &info );
        unsigned char * memory = nullptr;
        unsigned long size = 0;
        jpeg_mem_dest( &info, &memory, &size );
        info.image_width = w;
        info.image_height = h;
        info.input_components = channels;
        info.in_color_space = channels == 1 ? JCS_GRAYSCALE : channels == 3 ? JCS_RGB : channels == 4 ? JCS_CMYK : JCS_UNKNOWN;
        jpeg_set_defaults( &info );
        jpeg_set_quality( &info, 100, TRUE );
        if ( progressive )
            jpeg_simple_progression( &info );
        if ( full )
            info.comp_info[0].h_samp_factor = info.comp_info[0].v_samp_factor = 1;
        info.restart_interval = unsigned( restart );
        jpeg_start_compress( &info, TRUE );
        s.expected.width = w;
        s.expected.height = h;
        s.expected.channels = uint32_t( channels );
        for ( uint32_t y = 0; y < h; ++y ) {
            Bytes row;
            for ( uint32_t x = 0; x < w; ++x ) {
                for ( uint32_t k = 0; k < uint32_t( channels ); ++k )
                    row.push_back( pixelValue( JPEG, x, y, k, 3 ) );
                for ( uint32_t k = 0; k < uint32_t( channels ); ++k )
                    s.expected.pixels.push_back( row[x * uint32_t( channels ) + ( channels == 3 ? 2 - k : k )] );
            }
            JSAMPROW line[1] = { row.data() };
            jpeg_write_scanlines( &info, line, 1 );
        }
        jpeg_finish_compress( &info );
        jpeg_destroy_compress( &info );
        s.bytes.assign( memory, memory + size );
        free( memory );
        return s;
    }

    std::vector<Sample> samples()
    {
        std::vector<Sample> all;
        for ( uint32_t bits : { 8u, 24u, 32u } )
            for ( auto size : { std::make_pair( 1u, 1u ), std::make_pair( 3u, 2u ), std::make_pair( 4u, 1u ), std::make_pair( 2u, 3u ), std::make_pair( 7u, 5u ) } )
                for ( int variant = 0; variant < 4; ++variant )
                    for ( int palette = 0; palette < 4; ++palette ) {
                        if ( ( palette == 1 || palette == 2 ) && bits != 8 )
                            continue;
                        all.push_back( bitmap( size.first, size.second, bits, variant == 1, variant == 2, palette, variant != 3 ) );
                        if ( !bitmapMeaning( all.back().bytes, all.back().expected ) )
                            abort();
                    }
        const int types[][2] = { { 0, 1 }, { 0, 2 }, { 0, 4 }, { 0, 8 }, { 0, 16 }, { 2, 8 }, { 2, 16 }, { 3, 1 }, { 3, 2 }, { 3, 4 }, { 3, 8 }, { 4, 8 }, { 4, 16 }, { 6, 8 }, { 6, 16 } };
        for ( auto & t : types )
            for ( auto size : { std::make_pair( 1u, 1u ), std::make_pair( 5u, 3u ), std::make_pair( 9u, 10u ) } )
                for ( int interlace = 0; interlace < 2; ++interlace )
                    for ( int transparency = 0; transparency < ( t[0] < 4 ? 2 : 1 ); ++transparency )
                        all.push_back( pngFile( size.first, size.second, t[0], t[1], interlace, transparency ) );
        for ( int channels : { 1, 3, 4, 2 } )
            for ( auto size : { std::make_pair( 1u, 1u ), std::make_pair( 17u, 9u ) } )
                for ( int variant = 0; variant < 4; ++variant )
                    all.push_back( jpegFile( size.first, size.second, channels, variant == 1, variant == 2, variant == 3 ? 1 : 0 ) );
        return all;
    }

    bool close( const Content & a, const Content & b, int tolerance )
    {
        if ( a.width != b.width || a.height != b.height || a.channels != b.channels )
            return false;
        for ( size_t i = 0; i < a.pixels.size(); ++i )
            if ( std::abs( int( a.pixels[i] ) - int( b.pixels[i] ) ) > tolerance )
                return false;
        return true;
    }

    // ---- one file
    bool attempt( Kind kind, const std::string & path, int way, Content & c, Shape shape = Shape{ 1, 1, 1 } )
    {
        const Resources resources;
        Outcome o;
        Content first;
        {
            Image image;
            heap::fillWith() = 0xA7;
            heap::limit() = size_t( 256 ) << 20;
            o = guarded( [&] { image = load( kind, path, way, shape ); } );
            heap::limit() = SIZE_MAX;
            heap::fillWith() = -1;
            if ( o == DONE )
                first = content( image );
            // files of these formats are as big as their images, so such a big image cannot be in a small file
            if ( o == NO_MEMORY && ( kind == BMP || kind == RAW ) )
                fail( "out of memory instead of a refusal of a small file" );
        }
        {
            Content none;
            std::swap( none, c );
        }
        const Content empty;
        const bool any = !( first == empty );
        if ( !any )
            resources.unchanged( "loading" );
        else {
            Bytes().swap( first.pixels );
            resources.unchanged( "loading" );
        }
        ++ctx().compared;
        if ( o != DONE || !any )
            return false;
        // pixels which are not from the file have different values in different runs
        Image again, image;
        heap::fillWith() = 0x58;
        guarded( [&] { again = load( kind, path, way, shape ); } );
        heap::fillWith() = 0xA7;
        guarded( [&] { image = load( kind, path, way, shape ); } );
        heap::fillWith() = -1;
        c = content( image );
        if ( !( c == content( again ) ) )
            fail( "pixels of the image are not from the file" );
        return true;
    }

    enum Expect
    {
        SAFE, // nothing but safety is required
        SAME_OR_NONE, // a check sum guards the contents
        MEANING // an image must be what the file describes
    };

    void file( const Sample & s, const Bytes & bytes, Expect expect, int way = 0 )
    {
        const std::string path = std::string( "f" ) + extension[s.kind];
        put( path, bytes );
        Content c;
        const bool image = attempt( s.kind, path, way, c );
        if ( !image )
            return;
        Content meaning;
        if ( s.kind == BMP ) {
            if ( !bitmapMeaning( bytes, meaning ) )
                fail( "an image %s is loaded from a file which does not describe one", c.shape().c_str() );
            if ( !( c == meaning ) )
                fail( "the loaded image %s is not what the file describes (%s)", c.shape().c_str(), meaning.shape().c_str() );
        }
        else if ( expect == SAME_OR_NONE && !close( c, s.expected, s.tolerance ) )
            fail( "a damaged file is loaded as a different image" );
        else if ( expect == MEANING && s.kind == PNG && ( c.width != at32be( bytes, 16 ) || c.height != at32be( bytes, 20 ) || c.channels != ( bytes[25] == 0 || bytes[25] == 4 ? 1u : 3u ) ) )
            fail( "the loaded image %s is not what the header says", c.shape().c_str() );
    }

    void intact( const Sample & s )
    {
        if ( !next() )
            return;
        label( "%s intact", s.name.c_str() );
        const std::string path = std::string( "f" ) + extension[s.kind];
        put( path, s.bytes );
        for ( int way = 0; way < 4; ++way ) {
            Content c;
            if ( !attempt( s.kind, path, way, c ) )
                fail( "a valid file was not loaded (way %d)", way );
            ++ctx().compared;
            if ( !close( c, s.expected, s.tolerance ) )
                fail( "the loaded image %s is not the image of the file %s (way %d)", c.shape().c_str(), s.expected.shape().c_str(), way );
        }
        // by other loaders
        for ( int k = 0; k < KINDS; ++k ) {
            if ( k == s.kind )
                continue;
            phase( "loaded as %s", kindName[k] );
            const std::string other = std::string( "g" ) + extension[k];
            put( other, s.bytes );
            Content c;
            if ( k == RAW ) {
                for ( uint32_t w : { 1u, 3u, 65536u, 0x80000000u, 0xFFFFFFFFu } )
                    for ( uint32_t h : { 1u, 2u, 65536u, 0x80000000u, 0xFFFFFFFFu } )
                        for ( uint8_t channels : { 1, 3, 4, 255 } ) {
                            const bool fits = s.bytes.size() / channels / w / h > 0 && s.bytes.size() == size_t( w ) * h * channels;
                            if ( attempt( RAW, other, 0, c, Shape{ w, h, channels } ) != fits )
                                fail( "raw image %ux%ux%u is %s a file of %zu bytes", w, h, channels, fits ? "not loaded from" : "loaded from", s.bytes.size() );
                        }
            }
            else if ( attempt( Kind( k ), other, 0, c ) )
                fail( "a file of another format was loaded" );
        }
    }

    void truncations( const Sample & s )
    {
        const size_t block = 16;
        for ( size_t start = 0; start < s.bytes.size(); start += block ) {
            if ( !next() )
                continue;
            label( "%s truncated from %zu", s.name.c_str(), start );
            for ( size_t n = start; n < std::min( s.bytes.size(), start + block ); ++n ) {
                phase( "%zu bytes", n );
                file( s, Bytes( s.bytes.begin(), s.bytes.begin() + long( n ) ), s.kind == JPEG ? SAFE : SAME_OR_NONE, int( n % 4 ) ); // libjpeg completes an image
            }
        }
        if ( !next() )
            return;
        label( "%s with trailing bytes", s.name.c_str() );
        Bytes b = s.bytes;
        for ( int i = 0; i < 5; ++i ) {
            b.push_back( uint8_t( i * 85 ) );
            file( s, b, SAME_OR_NONE );
        }
    }

    void changes( const Sample & s, bool everyValue )
    {
        for ( size_t i = 0; i < s.bytes.size(); ++i ) {
            if ( !next() )
                continue;
            label( "%s with byte %zu changed", s.name.c_str(), i );
            const bool header = s.kind == BMP ? i < 54 : s.kind == PNG ? i < 33 : true;
            const bool all = everyValue || ( s.kind == BMP && header );
            Bytes b = s.bytes;
            const uint8_t old = b[i];
            const uint8_t few[] = { 0, 1, 0x7F, 0x80, 0xFF, uint8_t( old ^ 1 ), uint8_t( old ^ 0x80 ), uint8_t( old ^ 0x20 ), uint8_t( old + 1 ), uint8_t( old - 1 ) };
            for ( int v = 0; v < 256; ++v ) {
                if ( v == old || ( !all && std::find( few, few + sizeof few, v ) == few + sizeof few ) )
                    continue;
                b[i] = uint8_t( v );
                phase( "to %d", v );
                file( s, b, s.kind == PNG ? SAME_OR_NONE : SAFE );
            }
        }
    }

    // pairs of header fields
    void bitmapFields( const Sample & s, bool thorough )
    {
        const bool core = at32( s.bytes, 14 ) == 12;
        struct Field
        {
            size_t at, size;
        };
        const std::vector<Field> fields = core ? std::vector<Field>{ { 2, 4 }, { 10, 4 }, { 14, 4 }, { 18, 2 }, { 20, 2 }, { 22, 2 }, { 24, 2 } }
                                               : std::vector<Field>{ { 2, 4 }, { 10, 4 }, { 14, 4 }, { 18, 4 }, { 22, 4 }, { 26, 2 }, { 28, 2 }, { 30, 4 }, { 34, 4 }, { 46, 4 } };
        const uint32_t size = uint32_t( s.bytes.size() ), offset = at32( s.bytes, 10 );
        std::vector<uint32_t> values = { 0, 1, 2, 3, 4, 8, 12, 24, 32, 40, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x40000000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, size, size - 1, offset, offset + 1024, 14 + 40 + 1024 };
        for ( size_t i = 0; i < fields.size(); ++i )
            for ( size_t j = i; j < fields.size(); ++j )
                for ( uint32_t a : values ) {
                    if ( !next() )
                        continue;
                    label( "%s with fields at %zu and %zu changed to %x", s.name.c_str(), fields[i].at, fields[j].at, a );
                    for ( uint32_t v : values ) {
                        Bytes b = s.bytes;
                        for ( size_t k = 0; k < fields[i].size; ++k )
                            b[fields[i].at + k] = uint8_t( a >> ( 8 * k ) );
                        if ( j != i )
                            for ( size_t k = 0; k < fields[j].size; ++k )
                                b[fields[j].at + k] = uint8_t( v >> ( 8 * k ) );
                        phase( "and %x", v );
                        file( s, b, SAFE );
                        if ( j == i )
                            break;
                    }
                }
        (void)thorough;
    }

    // dimensions whose product does not fit 32 bits while the rest of the file agrees with it
    void bitmapOverflows()
    {
        const uint32_t bits[] = { 8, 24, 32 };
        for ( uint32_t depth : bits )
            for ( int64_t wrap = 1; wrap <= 4; ++wrap )
                for ( uint32_t rest : { 0u, 4u, 8u, 12u, 64u } )
                    for ( uint32_t h : { 1u, 2u, 4u, 16u, 256u, 65535u, 65536u, 65537u, 0x40000000u } ) {
                        if ( !next() )
                            continue;
                        // line * h == wrap * 2^32 + rest
                        const uint64_t total = ( uint64_t( wrap ) << 32 ) + rest;
                        if ( total % h != 0 )
                            continue;
                        const uint64_t line = total / h, w = line / ( depth / 8 );
                        label( "bitmap of depth %u with %llu x %u in %u bytes", depth, (unsigned long long)w, h, rest );
                        if ( w == 0 || w > 0x7FFFFFFF )
                            continue;
                        Sample s = bitmap( 1, 1, depth, false, false, 0, false );
                        s.bytes.resize( 54 );
                        set32( s.bytes, 18, uint32_t( w ) );
                        set32( s.bytes, 22, h );
                        for ( uint32_t extra : { rest, 0u, 4u } ) {
                            Bytes b = s.bytes;
                            b.resize( 54 + extra, 0x33 );
                            file( s, b, SAFE );
                        }
                    }
    }

    // pixels which start anywhere, inside of headers too, in a file of the size to which it leads
    void bitmapPositions()
    {
        for ( bool core : { false, true } )
            for ( uint32_t bits : { 8u, 24u, 32u } )
                for ( uint32_t size : { 1u, 2u, 3u, 8u } ) {
                    if ( !next() )
                        continue;
                    label( "bitmap %ux%ux%u%s with moved pixels", size, size, bits, core ? " core" : "" );
                    const Sample s = bitmap( size, size, bits, core, false, 0, false );
                    const uint32_t line = ( size * bits / 8 + 3 ) / 4 * 4;
                    for ( uint32_t offset = 0; offset < 1100; ++offset ) {
                        Bytes b = s.bytes;
                        set32( b, 10, offset );
                        b.resize( size_t( offset ) + line * size, 0x33 );
                        if ( b.size() < 14 )
                            continue;
                        phase( "to %u", offset );
                        file( s, b, SAFE, int( offset % 4 ) );
                        if ( core || b.size() < 38 )
                            continue;
                        set32( b, 34, line * size );
                        file( s, b, SAFE );
                    }
                }
    }

    void pngStructure( const Sample & s )
    {
        const std::vector<Chunk> list = chunks( s.bytes );
        // fields of the header with a right check sum
        const uint32_t sizes[] = { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 16, 255, 256, 1000, 65535, 65536, 999999, 1000000, 1000001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
        for ( size_t field = 0; field < 7; ++field ) {
            if ( !next() )
                continue;
            label( "%s with header field %zu changed", s.name.c_str(), field );
            for ( uint32_t v = 0; v < ( field < 2 ? 23u : 256u ); ++v ) {
                Bytes b = s.bytes;
                if ( field < 2 )
                    set32be( b, 16 + 4 * field, sizes[v] );
                else
                    b[22 + field] = uint8_t( v );
                repair( b, list[0] );
                phase( "to %u", field < 2 ? sizes[v] : v );
                // a big image takes much memory before its data are found to be missing
                if ( field < 2 && sizes[v] > 70000 && sizes[v] <= 1000000 && ( s.expected.width > 5 || s.expected.height > 5 ) )
                    continue;
                file( s, b, MEANING );
            }
        }
        for ( size_t i = 0; i < list.size(); ++i ) {
            if ( !next() )
                continue;
            label( "%s with chunk %zu", s.name.c_str(), i );
            const Bytes before( s.bytes.begin(), s.bytes.begin() + long( list[i].start ) ), chunk( s.bytes.begin() + long( list[i].start ), s.bytes.begin() + long( list[i].start + list[i].size ) ),
                after( s.bytes.begin() + long( list[i].start + list[i].size ), s.bytes.end() );
            auto join = [&]( const std::vector<Bytes> & parts ) {
                Bytes b;
                for ( auto & p : parts )
                    b.insert( b.end(), p.begin(), p.end() );
                return b;
            };
            phase( "removed" );
            file( s, join( { before, after } ), SAFE );
            phase( "repeated" );
            file( s, join( { before, chunk, chunk, after } ), SAFE );
            for ( size_t j = 0; j < list.size(); ++j ) {
                phase( "replaced by chunk %zu", j );
                file( s, join( { before, Bytes( s.bytes.begin() + long( list[j].start ), s.bytes.begin() + long( list[j].start + list[j].size ) ), after } ), SAFE );
            }
            for ( int k = 0; k < 4; ++k )
                for ( int bit = 0; bit < 8; ++bit ) {
                    phase( "with byte %d of type changed in bit %d", k, bit );
                    Bytes b = s.bytes;
                    b[list[i].start + 4 + size_t( k )] ^= uint8_t( 1 << bit );
                    repair( b, list[i] );
                    file( s, b, SAFE );
                }
            for ( size_t length = 0; length + 12 < list[i].size; ++length ) {
                phase( "shortened to %zu", length );
                Bytes c( chunk.begin(), chunk.begin() + long( 8 + length ) );
                c.resize( 12 + length );
                set32be( c, 0, uint32_t( length ) );
                repair( c, Chunk{ 0, c.size() } );
                file( s, join( { before, c, after } ), SAFE );
            }
            for ( size_t p = 8; p + 4 < list[i].size && ( list[i].size < 64 || p < 40 ); ++p )
                for ( int bit = 0; bit < 8; ++bit ) {
                    phase( "with byte %zu of data changed in bit %d", p - 8, bit );
                    Bytes b = s.bytes;
                    b[list[i].start + p] ^= uint8_t( 1 << bit );
                    repair( b, list[i] );
                    if ( i == 0 && p < 16 && b[list[i].start + p] != s.bytes[list[i].start + p] && at32be( b, 16 + 4 * ( ( p - 8 ) / 4 ) ) > 70000 && at32be( b, 16 + 4 * ( ( p - 8 ) / 4 ) ) <= 1000000 )
                        continue; // above
                    file( s, b, SAFE );
                }
        }
    }

    void reading( const Sample & s )
    {
        if ( !next() )
            return;
        label( "%s with faults of reading", s.name.c_str() );
        const std::string path = std::string( "f" ) + extension[s.kind];
        put( path, s.bytes );
        for ( int kind = 0; kind < 3; ++kind )
            for ( int64_t at = 0; at < 40; ++at ) {
                phase( "%s at call %lld", kind == 0 ? "error" : kind == 1 ? "end" : "short read", (long long)at );
                const Resources resources;
                Outcome o;
                bool reached;
                {
                    Image image;
                    readCall = 0;
                    readFaultKind = kind;
                    readFaultAt = at;
                    o = guarded( [&] { image = load( s.kind, path, 0, Shape{ 1, 1, 1 } ); } );
                    reached = readCall > at;
                    readFaultAt = -1;
                    ++ctx().compared;
                    if ( o == DONE && !image.empty() && !close( content( image ), s.expected, s.tolerance ) )
                        fail( "an image of different pixels was loaded" );
                }
                resources.unchanged( "loading" );
                if ( !reached )
                    break;
            }
    }

    void memory( const Sample & s )
    {
        if ( !next() )
            return;
        label( "%s without memory", s.name.c_str() );
        const std::string path = std::string( "f" ) + extension[s.kind];
        put( path, s.bytes );
        for ( int64_t n = 1; n < 100; ++n ) {
            phase( "request %lld", (long long)n );
            const Resources resources;
            bool reached;
            {
                Image image;
                heap::Track track( n );
                guarded( [&] { image = load( s.kind, path, 0, Shape{ 1, 1, 1 } ); } );
                reached = track.reached();
            }
            resources.unchanged( "loading" );
            if ( !reached )
                break;
        }
    }

    void places()
    {
        if ( !next() )
            return;
        label( "paths which are not files" );
        mkdir( "directory.bmp", 0755 );
        mkdir( "directory.png", 0755 );
        mkdir( "directory.jpg", 0755 );
        mkdir( "directory.raw", 0755 );
        put( "empty.bmp", Bytes() );
        put( "empty.png", Bytes() );
        put( "empty.jpg", Bytes() );
        put( "empty.raw", Bytes() );
        for ( int k = 0; k < KINDS; ++k )
            for ( const std::string & name : { std::string( "directory" ), std::string( "empty" ), std::string( "missing" ), std::string( "missing/missing" ), std::string( 300, 'x' ), std::string( 5000, 'y' ) } )
                for ( int way = 0; way < 4; ++way ) {
                    phase( "%s %.20s way %d", kindName[k], name.c_str(), way );
                    Content c;
                    if ( attempt( Kind( k ), name + extension[k], way, c ) )
                        fail( "an image is loaded" );
                    if ( k == RAW && attempt( RAW, name + extension[k], 0, c, Shape{ 65536, 65536, 1 } ) )
                        fail( "an image is loaded" );
                }
    }

    void rawShapes()
    {
        const uint32_t values[] = { 0, 1, 2, 3, 5, 255, 256, 65535, 65536, 65537, 0x40000000, 0x55555556, 0x7FFFFFFF, 0x80000000, 0xAAAAAAAB, 0xFFFFFFFF };
        for ( uint32_t w : values )
            for ( uint32_t h : values ) {
                if ( !next() )
                    continue;
                label( "raw file as %u x %u", w, h );
                for ( uint32_t channels : { 0u, 1u, 2u, 3u, 4u, 128u, 255u } ) {
                    const uint32_t wrapped = w * h * channels;
                    for ( uint32_t size : { 0u, 1u, 2u, 6u, 12u, wrapped } ) {
                        if ( size > 70000 )
                            continue;
                        phase( "%u channels, file of %u bytes", channels, size );
                        Bytes b( size );
                        for ( uint32_t i = 0; i < size; ++i )
                            b[i] = noise( i );
                        put( "f.raw", b );
                        Content c;
                        const Shape shape{ w, h, uint8_t( channels ) };
                        // width * height takes at most 64 bits; the number of channels divides
                        const bool fits = w && h && channels && uint64_t( w ) * h <= size && uint64_t( w ) * h * channels == size;
                        if ( attempt( RAW, "f.raw", 0, c, shape ) != fits )
                            fail( fits ? "a raw image is not loaded" : "a raw image is loaded from a file of another size" );
                        if ( fits && c.pixels != b )
                            fail( "pixels of a raw image are different" );
                        // two bytes per value
                        penguinV::ImageTemplate<uint16_t> wide;
                        guarded( [&] { wide = Raw_Operation::Load<uint16_t>( "f.raw", w, h, uint8_t( channels ) ); } );
                        const bool wideFits = w && h && channels && uint64_t( w ) * h <= size && uint64_t( w ) * h * channels * 2 == size;
                        if ( wide.empty() == wideFits )
                            fail( "a raw image of 16 bits is %s", wideFits ? "not loaded" : "loaded from a file of another size" );
                    }
                }
            }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    silence();
    const bool thorough = ctx().thorough;
    const std::vector<Sample> all = samples();
    for ( const Sample & s : all ) { // everything allocated once
        const std::string path = std::string( "first" ) + extension[s.kind];
        put( path, s.bytes );
        guarded( [&] { load( s.kind, path, 0, Shape{ 1, 1, 1 } ); } );
        guarded( [&] { load( s.kind, "", 0, Shape{ 1, 1, 1 } ); } );
    }
    for ( size_t i = 0; i < all.size(); ++i ) {
        const Sample & s = all[i];
        intact( s );
        reading( s );
        memory( s );
        const bool tiny = s.expected.width <= 3 || ( s.kind == PNG && s.expected.width <= 5 );
        truncations( s );
        if ( s.kind == BMP && s.bytes.size() > 1024 && !thorough )
            continue;
        if ( thorough || tiny || ( s.kind == JPEG && ( s.expected.channels == 1 || s.expected.channels == 3 ) ) )
            changes( s, thorough && s.kind != BMP && ( tiny || s.kind == JPEG ) );
        if ( s.kind == BMP && ( thorough || s.expected.width == 3 ) )
            bitmapFields( s, thorough );
        if ( s.kind == PNG && ( thorough || s.expected.width == 5 ) )
            pngStructure( s );
    }
    bitmapOverflows();
    bitmapPositions();
    places();
    rawShapes();
    vp::finish();
    return 0;
}
