// C21: Fourier transform, products and the container of complex data.
#include "fft.h"
#include "memory/hooks.h"
#include "penguinv_exception.h"
#include "vp.h"
#include <cmath>
#include <complex>
#include <functional>
#include <type_traits>

using namespace vp;
using namespace FFT;
using penguinV::Image;

namespace
{
    typedef std::complex<double> C;
    typedef std::vector<C> Array;
    const double pi = 3.14159265358979323846;

    // one dimension after the other, by the definition
    Array transform( const Array & in, uint32_t w, uint32_t h, int sign )
    {
        Array rows( in.size() ), out( in.size() );
        std::vector<C> rootW( w ), rootH( h );
        for ( uint32_t k = 0; k < w; ++k )
            rootW[k] = C( std::cos( 2 * pi * k / w ), sign * std::sin( 2 * pi * k / w ) );
        for ( uint32_t k = 0; k < h; ++k )
            rootH[k] = C( std::cos( 2 * pi * k / h ), sign * std::sin( 2 * pi * k / h ) );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t u = 0; u < w; ++u ) {
                C s = 0;
                for ( uint32_t x = 0; x < w; ++x )
                    s += in[y * w + x] * rootW[uint64_t( u ) * x % w];
                rows[y * w + u] = s;
            }
        for ( uint32_t x = 0; x < w; ++x )
            for ( uint32_t v = 0; v < h; ++v ) {
                C s = 0;
                for ( uint32_t y = 0; y < h; ++y )
                    s += rows[y * w + x] * rootH[uint64_t( v ) * y % h];
                out[v * w + x] = s;
            }
        return out;
    }

    void put( ComplexData & d, const Array & a )
    {
        for ( size_t i = 0; i < a.size(); ++i ) {
            d.data()[i].r = float( a[i].real() );
            d.data()[i].i = float( a[i].imag() );
        }
    }

    ComplexData make( const Array & a, uint32_t w, uint32_t h )
    {
        ComplexData d;
        d.resize( w, h );
        put( d, a );
        return d;
    }

    void compare( const ComplexData & d, const Array & a, uint32_t w, uint32_t h, double scale, const char * what )
    {
        ++ctx().compared;
        if ( d.width() != w || d.height() != h || d.empty() )
            fail( "%s: size is %ux%u", what, d.width(), d.height() );
        for ( size_t i = 0; i < a.size(); ++i ) {
            const double tolerance = 2e-5 * ( scale + std::abs( a[i] ) );
            if ( !( std::fabs( d.data()[i].r - a[i].real() ) <= tolerance && std::fabs( d.data()[i].i - a[i].imag() ) <= tolerance ) )
                fail( "%s: element %zu,%zu is %g%+gi, expected %g%+gi", what, i % w, i / w, d.data()[i].r, d.data()[i].i, a[i].real(), a[i].imag() );
        }
    }

    bool refused( const std::function<void()> & f )
    {
        ++ctx().calls;
        try {
            f();
        }
        catch ( const penguinVException & ) {
            ++ctx().refused;
            return true;
        }
        return false;
    }

    // direct and inverse transform of one array, separate and in place
    void transforms( FFTExecutor & e, const Array & a, uint32_t w, uint32_t h, double scale )
    {
        for ( int inverse = 0; inverse < 2; ++inverse ) {
            const Array expected = transform( a, w, h, inverse ? 1 : -1 );
            const ComplexData in = make( a, w, h );
            ComplexData out = make( Array( a.size(), C( 7, -3 ) ), w, h ), place = make( a, w, h );
            phase( "%s transform", inverse ? "inverse" : "direct" );
            ctx().calls += 2;
            if ( inverse ) {
                e.inverseTransform( in, out );
                e.inverseTransform( place );
            }
            else {
                e.directTransform( in, out );
                e.directTransform( place );
            }
            compare( in, a, w, h, 0, "input" );
            compare( out, expected, w, h, scale, "output" );
            compare( place, expected, w, h, scale, "in place" );
            // back again: the original times the number of elements
            if ( inverse )
                e.directTransform( out );
            else
                e.inverseTransform( out );
            Array back( a );
            for ( C & c : back )
                c *= double( w ) * h;
            compare( out, back, w, h, scale * w * h, "there and back" );
        }
        phase( "%s", "" );
    }

    Array pattern( uint32_t w, uint32_t h, uint32_t seed )
    {
        Array a( size_t( w ) * h );
        for ( size_t i = 0; i < a.size(); ++i )
            a[i] = C( double( ( i * 37 + seed * 11 + i / 5 ) % 31 ), seed % 2 ? double( ( i * 13 + seed ) % 17 ) - 8 : 0 );
        return a;
    }

    void impulses( uint32_t w, uint32_t h )
    {
        FFTExecutor e( w, h );
        for ( size_t i = 0; i < size_t( w ) * h; ++i )
            for ( const C & value : { C( 1, 0 ), C( 0, 1 ) } ) {
                if ( !next() )
                    continue;
                label( "%ux%u impulse %s at %zu,%zu", w, h, value.real() > 0 ? "1" : "i", i % w, i / w );
                Array a( size_t( w ) * h, 0 );
                a[i] = value;
                transforms( e, a, w, h, 1 );
            }
        for ( uint32_t seed = 0; seed < 2; ++seed ) {
            if ( !next() )
                continue;
            label( "%ux%u pattern %u", w, h, seed );
            transforms( e, pattern( w, h, seed ), w, h, 32 * std::sqrt( double( w ) * h ) );
        }
    }

    // products: plain arithmetic for every way of passing the same object twice, and convolution of impulses
    void products( uint32_t w, uint32_t h )
    {
        FFTExecutor e( w, h );
        const size_t n = size_t( w ) * h;
        if ( next() ) {
            label( "%ux%u products", w, h );
            const Array a = pattern( w, h, 1 ), b = pattern( w, h, 3 );
            Array ab( n ), aa( n );
            for ( size_t i = 0; i < n; ++i ) {
                ab[i] = a[i] * b[i];
                aa[i] = a[i] * a[i];
            }
            ComplexData x = make( a, w, h ), y = make( b, w, h ), z = make( b, w, h );
            ctx().calls += 5;
            phase( "separate output" );
            e.complexMultiplication( x, y, z );
            compare( z, ab, w, h, 1, "product" );
            compare( x, a, w, h, 0, "first factor" );
            compare( y, b, w, h, 0, "second factor" );
            phase( "output is the second factor" );
            e.complexMultiplication( x, y, y );
            compare( y, ab, w, h, 1, "product" );
            phase( "output is the first factor" );
            put( y, b );
            e.complexMultiplication( x, y, x );
            compare( x, ab, w, h, 1, "product" );
            phase( "square" );
            put( x, a );
            e.complexMultiplication( x, x, y );
            compare( y, aa, w, h, 1, "product" );
            phase( "square in place" );
            e.complexMultiplication( x, x, x );
            compare( x, aa, w, h, 1, "product" );
        }
        for ( size_t i = 0; i < n; ++i )
            for ( size_t j = 0; j < n; ++j ) {
                if ( !next() )
                    continue;
                label( "%ux%u convolution of impulses at %zu,%zu and %zu,%zu", w, h, i % w, i / w, j % w, j / w );
                Array a( n, 0 ), b( n, 0 ), c( n, 0 );
                a[i] = 2;
                b[j] = 3;
                c[( i / w + j / w ) % h * w + ( i % w + j % w ) % w] = 6.0 * double( n );
                for ( int place = 0; place < 3; ++place ) {
                    phase( "output %s", place == 0 ? "separate" : place == 1 ? "first" : "second" );
                    ComplexData x = make( a, w, h ), y = make( b, w, h ), z = make( b, w, h );
                    e.directTransform( x );
                    e.directTransform( y );
                    ComplexData & out = place == 0 ? z : place == 1 ? x : y;
                    e.complexMultiplication( x, y, out );
                    e.inverseTransform( out );
                    ctx().calls += 4;
                    compare( out, c, w, h, double( n ) * 6, "convolution" );
                }
            }
    }

    // images: set() keeps every pixel, get() normalises and moves the centre to the origin
    void images( uint32_t w, uint32_t h )
    {
        for ( uint32_t alignment = 1; alignment <= 4; ++alignment ) {
            if ( !next() )
                continue;
            label( "%ux%u image with alignment %u", w, h, alignment );
            const uint32_t n = w * h;
            Image im( w, h, 1, uint8_t( alignment ) );
            memset( im.data(), 0xEE, size_t( im.rowSize() ) * h );
            Array a( n ), centred( n, 0 );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    const uint8_t v = uint8_t( ( y * w + x ) * 29 + 11 * y );
                    im.data()[y * im.rowSize() + x] = v;
                    a[y * w + x] = v;
                }
            const ComplexData d( im );
            compare( d, a, w, h, 0, "data of an image" );
            ComplexData e;
            e.resize( h + 1, w );
            e.set( im );
            compare( e, a, w, h, 0, "data set from an image" );
            std::vector<float> f( n );
            for ( uint32_t i = 0; i < n; ++i )
                f[i] = float( a[i].real() ) - 100.5f;
            Array shifted( a );
            for ( C & c : shifted )
                c -= 100.5;
            const ComplexData g( f, w, h );
            compare( g, shifted, w, h, 0, "data of a vector" );
            e.set( f );
            compare( e, shifted, w, h, 0, "data set from a vector" );

            // an image through transform and convolution with the central impulse
            phase( "identity" );
            FFTExecutor x( w, h );
            Array delta( n, 0 );
            delta[h / 2 * w + w / 2] = 1;
            for ( int place = 0; place < 2; ++place ) {
                ComplexData p( im ), q = make( delta, w, h ), r = make( delta, w, h );
                x.directTransform( p );
                x.directTransform( q );
                x.complexMultiplication( p, q, place ? p : r );
                x.inverseTransform( place ? p : r );
                const Image out = ( place ? p : r ).get();
                ++ctx().compared;
                if ( out.width() != w || out.height() != h || out.colorCount() != 1 )
                    fail( "result is an image of %ux%u", out.width(), out.height() );
                for ( uint32_t yy = 0; yy < h; ++yy )
                    for ( uint32_t xx = 0; xx < w; ++xx )
                        if ( out.data()[yy * out.rowSize() + xx] != im.data()[yy * im.rowSize() + xx] )
                            fail( "pixel %u,%u of %ux%u is %u, expected %u", xx, yy, w, h, out.data()[yy * out.rowSize() + xx], im.data()[yy * im.rowSize() + xx] );
            }
            // get() on its own: rounding of normalised values, imaginary part ignored
            phase( "get" );
            Array values( n );
            for ( uint32_t i = 0; i < n; ++i )
                values[i] = C( ( i * 41 % 256 + ( i % 3 - 1.0 ) * 0.25 ) * n, 5 );
            const Image out = make( values, w, h ).get();
            ++ctx().compared;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t xx = 0; xx < w; ++xx ) {
                    const uint32_t v = ( y * w + xx ) * 41 % 256, ox = ( xx + w - w / 2 ) % w, oy = ( y + h - h / 2 ) % h;
                    if ( out.data()[oy * out.rowSize() + ox] != v )
                        fail( "get(): element %u,%u of %ux%u gives %u at %u,%u, expected %u", xx, y, w, h, out.data()[oy * out.rowSize() + ox], ox, oy, v );
                }
        }
    }

    void refusals()
    {
        struct Size
        {
            uint32_t w, h;
        };
        const std::vector<Size> sizes = { { 0, 0 }, { 1, 1 }, { 2, 3 }, { 3, 2 }, { 6, 1 }, { 1, 6 }, { 2, 2 } };
        auto create = []( const Size & s ) { return s.w ? make( pattern( s.w, s.h, 1 ), s.w, s.h ) : ComplexData(); };
        for ( const Size & s : sizes )
            for ( const Size & t : sizes )
                for ( const Size & u : sizes ) {
                    if ( !next() )
                        continue;
                    label( "sizes %ux%u, %ux%u, %ux%u", s.w, s.h, t.w, t.h, u.w, u.h );
                    const bool same = s.w == t.w && s.h == t.h && s.w == u.w && s.h == u.h && s.w;
                    FFTExecutor e( 2, 3 );
                    ComplexData a = create( s ), b = create( t ), c = create( u );
                    if ( refused( [&] { e.complexMultiplication( a, b, c ); } ) == same )
                        fail( "product of these sizes was %s", same ? "refused" : "accepted" );
                    if ( !same && u.w )
                        compare( c, pattern( u.w, u.h, 1 ), u.w, u.h, 0, "output of a refused product" );
                    // executor of size s
                    if ( !s.w ) {
                        if ( !refused( [&] { FFTExecutor bad( t.w, 0 ); bad.initialize( t.w, 0 ); } ) || !refused( [&] { e.initialize( 0, t.h ); } ) )
                            fail( "an executor without size was accepted" );
                        if ( e.width() != 2 || e.height() != 3 )
                            fail( "a refused size changed the executor" );
                        continue;
                    }
                    e.initialize( s.w, s.h );
                    if ( e.width() != s.w || e.height() != s.h )
                        fail( "size of the executor is %ux%u", e.width(), e.height() );
                    for ( int inverse = 0; inverse < 2; ++inverse ) {
                        ComplexData in = create( t ), out = create( u );
                        if ( refused( [&] { inverse ? e.inverseTransform( in, out ) : e.directTransform( in, out ); } ) == same )
                            fail( "transform of these sizes was %s", same ? "refused" : "accepted" );
                        if ( !same && u.w )
                            compare( out, pattern( u.w, u.h, 1 ), u.w, u.h, 0, "output of a refused transform" );
                        if ( same )
                            compare( out, transform( pattern( t.w, t.h, 1 ), t.w, t.h, inverse ? 1 : -1 ), t.w, t.h, 40, "output" );
                    }
                }
        if ( next() ) {
            label( "containers refuse wrong input" );
            ComplexData d = make( pattern( 3, 2, 1 ), 3, 2 );
            const Image rgb( 3, 2, 3 ), none;
            if ( !refused( [&] { d.set( rgb ); } ) || !refused( [&] { d.set( none ); } ) || !refused( [&] { d.set( std::vector<float>() ); } )
                 || !refused( [&] { d.set( std::vector<float>( 5 ) ); } ) || !refused( [&] { d.set( std::vector<float>( 7 ) ); } ) )
                fail( "wrong input was accepted" );
            compare( d, pattern( 3, 2, 1 ), 3, 2, 0, "after refusals" );
            if ( !refused( [&] { ComplexData e( rgb ); } ) || !refused( [&] { ComplexData e( none ); } ) || !refused( [&] { ComplexData e( std::vector<float>( 5 ), 3, 2 ); } )
                 || !refused( [&] { ComplexData e( std::vector<float>( 6 ), 0, 2 ); } ) || !refused( [&] { ComplexData e( std::vector<float>( 6 ), 6, 0 ); } )
                 || !refused( [&] { ComplexData e( std::vector<float>(), 2, 2 ); } ) )
                fail( "a container of wrong input was created" );
            ComplexData e;
            if ( !e.empty() || e.width() || e.height() || !e.get().empty() )
                fail( "a new container is not empty" );
            if ( !refused( [&] { e.set( std::vector<float>( 6 ) ); } ) )
                fail( "values were stored in an empty container" );
        }
        for ( uint32_t k = 0; k < 4; ++k ) {
            if ( !next() )
                continue;
            label( "sizes beyond 32 bits %u", k );
            const uint32_t w = k & 1 ? 65537u : 65536u, h = 65536u;
            // 65537 * 65536 = 65536 modulo 2^32
            const std::vector<float> values( k & 1 ? 65536u : 1u, 1.0f );
            std::string what;
            try {
                if ( k & 2 ) {
                    ComplexData d;
                    d.resize( w, h );
                    what = d.width() == w && d.height() == h && d.data() ? "resized" : "";
                    // every element must exist
                    if ( !what.empty() )
                        d.data()[size_t( w ) * h - 1].r = 1;
                    if ( !what.empty() )
                        d.set( values );
                }
                else
                    ComplexData d( values, w, h );
                fail( "%zu values were accepted for %ux%u", values.size(), w, h );
            }
            catch ( const penguinVException & ) {
                ++ctx().refused;
            }
            catch ( const std::bad_alloc & ) {
                ++ctx().refused;
            }
        }
    }

    template <typename T, bool copyable = std::is_copy_constructible<T>::value>
    struct Copies
    {
        static void check()
        {
            T a( 2, 3 );
            {
                T b( a );
                ComplexData d = make( pattern( 2, 3, 1 ), 2, 3 );
                b.directTransform( d );
                compare( d, transform( pattern( 2, 3, 1 ), 2, 3, -1 ), 2, 3, 40, "copied executor" );
            }
            ComplexData d = make( pattern( 2, 3, 1 ), 2, 3 );
            a.directTransform( d );
            compare( d, transform( pattern( 2, 3, 1 ), 2, 3, -1 ), 2, 3, 40, "executor after the end of its copy" );
        }
    };
    template <typename T>
    struct Copies<T, false>
    {
        static void check() {}
    };
    template <typename T, bool assignable = std::is_copy_assignable<T>::value>
    struct Assigns
    {
        static void check()
        {
            T a( 2, 3 ), b( 4, 1 );
            b = a;
            ComplexData d = make( pattern( 2, 3, 1 ), 2, 3 );
            b.directTransform( d );
            compare( d, transform( pattern( 2, 3, 1 ), 2, 3, -1 ), 2, 3, 40, "assigned executor" );
        }
    };
    template <typename T>
    struct Assigns<T, false>
    {
        static void check() {}
    };

    // all sequences of container operations
    struct Model
    {
        uint32_t w = 0, h = 0;
        Array values;
        bool known = true; // contents after resize are not prescribed
    };

    const uint32_t operations = 17;

    const char * apply( uint32_t op, ComplexData ( &d )[2], Model ( &m )[2] )
    {
        typedef BaseComplexData<kiss_fft_cpx> Base;
        const uint32_t k = op & 1; // the object
        auto set = [&]( uint32_t w, uint32_t h, const Array & a ) {
            m[k].w = w;
            m[k].h = h;
            m[k].values = a;
            m[k].known = true;
        };
        ++ctx().calls;
        switch ( op / 2 ) {
        case 0: { // another size
            const bool same = m[k].w == 2 && m[k].h == 3;
            d[k].resize( 2, 3 );
            if ( !same ) {
                set( 2, 3, Array( 6 ) );
                m[k].known = false;
            }
            return "resize 2x3";
        }
        case 1: {
            const bool same = m[k].w == 3 && m[k].h == 2;
            d[k].resize( 3, 2 );
            if ( !same ) {
                set( 3, 2, Array( 6 ) );
                m[k].known = false;
            }
            return "resize 3x2";
        }
        case 2: {
            Image im( 2, 1, 1, 4 );
            im.data()[0] = 9;
            im.data()[1] = 200;
            d[k].set( im );
            set( 2, 1, { 9, 200 } );
            return "set image";
        }
        case 3: {
            const std::vector<float> v = { 1, 2, 3, 4, 5, 6 };
            const bool fits = m[k].w * m[k].h == 6;
            if ( refused( [&] { d[k].set( v ); } ) == fits )
                fail( "six values for %ux%u: %s", m[k].w, m[k].h, fits ? "refused" : "accepted" );
            if ( fits )
                set( m[k].w, m[k].h, { 1, 2, 3, 4, 5, 6 } );
            return "set vector";
        }
        case 4:
            static_cast<Base &>( d[k] ) = static_cast<const Base &>( d[1 - k] );
            m[k] = m[1 - k];
            return "assign the other";
        case 5:
            static_cast<Base &>( d[k] ) = static_cast<const Base &>( d[k] );
            return "assign itself";
        case 6:
            static_cast<Base &>( d[k] ) = std::move( static_cast<Base &>( d[1 - k] ) );
            std::swap( m[0], m[1] ); // what the moved-from object holds is not prescribed; see below
            return "move the other";
        case 7: {
            ComplexData e( static_cast<const Base &>( d[k] ) );
            const size_t n = size_t( m[k].w ) * m[k].h;
            if ( m[k].known && e.width() == m[k].w && e.height() == m[k].h && n )
                compare( e, m[k].values, m[k].w, m[k].h, 0, "copy" );
            else if ( e.width() != m[k].w || e.height() != m[k].h )
                fail( "copy is %ux%u", e.width(), e.height() );
            if ( n )
                e.data()[0].r = -1; // independent of the original
            return "copy";
        }
        default: {
            ComplexData e( std::move( d[0] ) );
            ComplexData f( std::move( e ) );
            static_cast<Base &>( d[0] ) = std::move( static_cast<Base &>( f ) );
            return "move out and in";
        }
        }
    }

    void histories( uint32_t depth )
    {
        uint64_t count = 1;
        for ( uint32_t i = 0; i < depth; ++i )
            count *= operations;
        for ( uint64_t n = 0; n < count; ++n ) {
            if ( !next() )
                continue;
            label( "history %llu of %u", (unsigned long long)n, depth );
            ComplexData d[2];
            Model m[2];
            std::string done;
            uint64_t c = n;
            for ( uint32_t i = 0; i < depth; ++i, c /= operations ) {
                const uint32_t op = uint32_t( c % operations );
                done += std::string( "; " ) + apply( op, d, m ) + ( op & 1 ? " (second)" : "" );
                label( "history%s", done.c_str() );
                if ( op / 2 == 6 ) {
                    // the moved-from object may hold anything consistent
                    const uint32_t from = 1 - ( op & 1 );
                    m[from].w = d[from].width();
                    m[from].h = d[from].height();
                    m[from].values.assign( size_t( m[from].w ) * m[from].h, 0 );
                    for ( size_t q = 0; q < m[from].values.size(); ++q )
                        m[from].values[q] = C( d[from].data()[q].r, d[from].data()[q].i );
                }
                for ( int k = 0; k < 2; ++k ) {
                    if ( d[k].width() != m[k].w || d[k].height() != m[k].h || d[k].empty() != ( m[k].w == 0 ) )
                        fail( "object %d is %ux%u, expected %ux%u", k, d[k].width(), d[k].height(), m[k].w, m[k].h );
                    if ( m[k].w && !m[k].known ) {
                        // give it values
                        m[k].values = pattern( m[k].w, m[k].h, i * 2 + 1 + uint32_t( k ) );
                        put( d[k], m[k].values );
                        m[k].known = true;
                    }
                    if ( m[k].w )
                        compare( d[k], m[k].values, m[k].w, m[k].h, 0, "contents" );
                }
            }
        }
    }

    // every heap request of the last operation fails: nothing is lost or leaked and objects stay consistent
    void failures()
    {
        for ( uint32_t n = 0; n < operations * operations * operations; ++n )
            for ( int64_t failing = 1; failing <= 6; ++failing ) {
                if ( !next() )
                    continue;
                label( "history %u with failing heap request %d", n, int( failing ) );
                ComplexData d[2];
                Model m[2];
                apply( n % operations, d, m );
                apply( n / operations % operations, d, m );
                for ( int k = 0; k < 2; ++k )
                    if ( d[k].width() ) {
                        m[k].w = d[k].width();
                        m[k].h = d[k].height();
                        m[k].values = pattern( d[k].width(), d[k].height(), 1 );
                        m[k].known = true;
                        put( d[k], m[k].values );
                    }
                    else
                        m[k] = Model();
                bool failed = false;
                try {
                    heap::Track track( failing );
                    apply( n / operations / operations % operations, d, m );
                }
                catch ( const std::bad_alloc & ) {
                    failed = true;
                }
                catch ( const penguinVException & ) {
                    failed = true;
                }
                if ( !failed )
                    continue;
                for ( int k = 0; k < 2; ++k ) {
                    ++ctx().compared;
                    if ( ( d[k].width() == 0 ) != d[k].empty() || ( d[k].height() == 0 ) != d[k].empty() )
                        fail( "object %d is %ux%u and %s", k, d[k].width(), d[k].height(), d[k].empty() ? "empty" : "not empty" );
                    if ( !d[k].empty() )
                        put( d[k], pattern( d[k].width(), d[k].height(), 1 ) );
                    d[k].resize( 4, 4 );
                    put( d[k], pattern( 4, 4, 1 ) );
                }
            }
    }

    void all()
    {
        const bool thorough = ctx().thorough;
        const uint32_t limit = thorough ? 12 : 8;
        for ( uint32_t w = 1; w <= limit; ++w )
            for ( uint32_t h = 1; h <= limit; ++h )
                impulses( w, h );
        for ( uint32_t n = limit + 1; n <= ( thorough ? 130u : 66u ); ++n ) {
            impulses( n, 1 );
            impulses( 1, n );
        }
        const uint32_t shapes[][2] = { { 17, 2 }, { 3, 14 }, { 16, 9 }, { 25, 4 }, { 13, 12 } };
        for ( auto & s : shapes )
            if ( thorough || s[0] * s[1] < 101 )
                impulses( s[0], s[1] );
        for ( uint32_t w = 1; w <= ( thorough ? 6u : 4u ); ++w )
            for ( uint32_t h = 1; h <= ( thorough ? 6u : 4u ); ++h )
                products( w, h );
        products( 7, 2 );
        products( 5, 4 );
        for ( uint32_t w = 1; w <= ( thorough ? 40u : 17u ); ++w )
            for ( uint32_t h = 1; h <= ( thorough ? 40u : 17u ); ++h )
                images( w, h );
        images( 64, 31 );
        images( 31, 64 );
        images( 100, 45 );
        refusals();
        for ( uint32_t depth = 1; depth <= ( thorough ? 5u : 4u ); ++depth )
            histories( depth );
        failures();
        if ( next() ) {
            label( "executor without a size" );
            bool constructed = true;
            try {
                FFTExecutor e;
                ComplexData d = make( pattern( 3, 2, 1 ), 3, 2 );
                if ( !refused( [&] { e.directTransform( d ); } ) || !refused( [&] { e.inverseTransform( d ); } ) || e.width() || e.height() )
                    fail( "an executor without a size executes" );
                ComplexData none;
                if ( !refused( [&] { e.directTransform( none ); } ) || !refused( [&] { e.inverseTransform( none ); } ) )
                    fail( "an executor without a size executes" );
                e.initialize( 3, 2 );
                e.directTransform( d );
                compare( d, transform( pattern( 3, 2, 1 ), 3, 2, -1 ), 3, 2, 40, "initialised executor" );
            }
            catch ( const penguinVException & ) {
                constructed = false;
            }
            if ( !constructed )
                fail( "FFTExecutor cannot be created without arguments" );
        }
        if ( next() ) {
            label( "copies of executors" );
            Copies<FFTExecutor>::check();
            Assigns<FFTExecutor>::check();
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    all();
    vp::finish();
    return 0;
}
