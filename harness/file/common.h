// Common part of the checks of image files.
#pragma once
#include "file/bmp_image.h"
#include "file/file_image.h"
#include "file/jpeg_image.h"
#include "file/png_image.h"
#include "file/raw_image.h"
#include "penguinv_exception.h"
#include "vp.h"
#include "../memory/hooks.h"
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_set_report_fd( void * fd );

using namespace vp;
using penguinV::Image;

typedef std::vector<uint8_t> Bytes;

enum Kind
{
    BMP,
    PNG,
    RAW,
    JPEG,
    KINDS
};

const char * const kindName[] = { "bmp", "png", "raw", "jpeg" };
const char * const extension[] = { ".bmp", ".png", ".raw", ".jpg" };

// libraries write warnings; reports of sanitizers still go to the real stream
inline void silence()
{
    const int real = dup( 2 );
    __sanitizer_set_report_fd( reinterpret_cast<void *>( intptr_t( real ) ) );
    const int null = open( "/dev/null", O_WRONLY );
    if ( null < 0 || dup2( null, 2 ) < 0 )
        _exit( 3 );
    close( null );
}

inline void put( const std::string & path, const Bytes & bytes )
{
    const int fd = open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    size_t done = 0;
    while ( fd >= 0 && done < bytes.size() ) {
        const ssize_t n = write( fd, bytes.data() + done, bytes.size() - done );
        if ( n <= 0 )
            break;
        done += size_t( n );
    }
    if ( fd < 0 || done != bytes.size() || close( fd ) != 0 ) {
        printf( "cannot write %s\n", path.c_str() );
        fflush( stdout );
        _exit( 3 );
    }
}

inline Bytes get( const std::string & path )
{
    Bytes bytes;
    FILE * f = fopen( path.c_str(), "rb" );
    if ( f == nullptr )
        return bytes;
    uint8_t buffer[65536];
    for ( size_t n; ( n = fread( buffer, 1, sizeof buffer, f ) ) > 0; )
        bytes.insert( bytes.end(), buffer, buffer + n );
    fclose( f );
    return bytes;
}

struct Shape
{
    uint32_t width, height;
    uint8_t channels;
};

// what is known about an image without its padding
struct Content
{
    uint32_t width = 0, height = 0;
    uint32_t channels = 0;
    Bytes pixels;
    bool operator==( const Content & c ) const
    {
        return width == c.width && height == c.height && channels == c.channels && pixels == c.pixels;
    }
    std::string shape() const
    {
        return std::to_string( width ) + "x" + std::to_string( height ) + "x" + std::to_string( channels );
    }
};

inline Content content( const Image & image )
{
    Content c;
    if ( image.empty() )
        return c;
    c.width = image.width();
    c.height = image.height();
    c.channels = image.colorCount();
    const size_t line = size_t( c.width ) * c.channels;
    for ( uint32_t y = 0; y < c.height; ++y )
        c.pixels.insert( c.pixels.end(), image.data() + size_t( y ) * image.rowSize(), image.data() + size_t( y ) * image.rowSize() + line );
    return c;
}

enum Outcome
{
    DONE,
    REFUSED,
    NO_MEMORY
};

// number of open files and of allocated bytes
struct Resources
{
    int file;
    size_t bytes;
    Resources()
    {
        file = open( "/dev/null", O_RDONLY );
        close( file );
        bytes = __sanitizer_get_current_allocated_bytes();
    }
    // failures of the harness itself: none of the calls in between keeps memory
    void unchanged( const char * what ) const
    {
        const size_t now = __sanitizer_get_current_allocated_bytes();
        const int f = open( "/dev/null", O_RDONLY );
        close( f );
        if ( f != file )
            fail( "%s left a file open", what );
        if ( now > bytes )
            fail( "%s leaked %zu bytes", what, now - bytes );
    }
};

template <typename F>
Outcome guarded( F f )
{
    ++ctx().calls;
    try {
        f();
    }
    catch ( const penguinVException & ) {
        ++ctx().refused;
        return REFUSED;
    }
    catch ( const std::bad_alloc & ) {
        return NO_MEMORY;
    }
    catch ( const std::exception & e ) {
        fail( "unexpected exception %s", e.what() );
    }
    return DONE;
}

// a way to load a file: 0 function returning an image, 1 function with an argument, 2 and 3 the same by extension
inline Image load( Kind kind, const std::string & path, int way, Shape shape )
{
    if ( kind == RAW )
        return Raw_Operation::Load<uint8_t>( path, shape.width, shape.height, shape.channels );
    Image image;
    if ( way & 1 ) {
        image = Image( 3, 2, 1, 8 );
        if ( way == 3 )
            File_Operation::Load( path, image );
        else if ( kind == BMP )
            Bitmap_Operation::Load( path, image );
        else if ( kind == PNG )
            Png_Operation::Load( path, image );
        else
            Jpeg_Operation::Load( path, image );
        return image;
    }
    if ( way == 2 )
        return File_Operation::Load( path );
    return kind == BMP ? Bitmap_Operation::Load( path ) : kind == PNG ? Png_Operation::Load( path ) : Jpeg_Operation::Load( path );
}

inline void save( Kind kind, const std::string & path, const Image & image, bool byExtension, bool whole, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
{
    if ( kind == RAW )
        Raw_Operation::Save( path, image );
    else if ( whole ) {
        if ( byExtension )
            File_Operation::Save( path, image );
        else if ( kind == BMP )
            Bitmap_Operation::Save( path, image );
        else if ( kind == PNG )
            Png_Operation::Save( path, image );
        else
            Jpeg_Operation::Save( path, image );
    }
    else {
        if ( byExtension )
            File_Operation::Save( path, image, x, y, w, h );
        else if ( kind == BMP )
            Bitmap_Operation::Save( path, image, x, y, w, h );
        else if ( kind == PNG )
            Png_Operation::Save( path, image, x, y, w, h );
        else
            Jpeg_Operation::Save( path, image, x, y, w, h );
    }
}

// position-dependent values; for jpeg all channels change together so only luminance varies
inline uint8_t pixelValue( Kind kind, uint32_t x, uint32_t y, uint32_t c, uint32_t variant )
{
    uint32_t v = x * 2654435761u + y * 40503u * 977u + variant * 7919u + 12345u;
    if ( kind == JPEG ) {
        v ^= v >> 13;
        v *= 2246822519u;
        return uint8_t( 20 + ( v >> 16 ) % 150 + c * 30 );
    }
    v += c * 3266489917u;
    v ^= v >> 15;
    v *= 2246822519u;
    v ^= v >> 13;
    return variant == 1 ? 0 : variant == 2 ? 255 : uint8_t( v >> 11 );
}

inline Image makeImage( Kind kind, Shape s, uint8_t alignment, uint32_t variant )
{
    Image image( s.width, s.height, s.channels, alignment );
    for ( size_t i = 0; i < size_t( image.rowSize() ) * s.height; ++i )
        image.data()[i] = uint8_t( 0xD0 + i % 13 );
    for ( uint32_t y = 0; y < s.height; ++y )
        for ( uint32_t x = 0; x < s.width; ++x )
            for ( uint32_t c = 0; c < s.channels; ++c )
                image.data()[size_t( y ) * image.rowSize() + x * s.channels + c] = pixelValue( kind, x, y, c, variant );
    return image;
}
