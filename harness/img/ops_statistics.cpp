// Part of the table of the image functions (see ops.h): statistics and neighbourhood filters.
#include "ops.h"
#include <algorithm>

void addStatisticsOps( std::vector<Op> & ops )
{
    {
        Op op = base( "Normalize", 1, 1 );
        UNARY( CPU, Image_Function, Normalize )
        UNARY( POOL, Function_Pool, Normalize )
        UNARY( AUTO, penguinV, Normalize )
        op.pixel = []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c, int & lo, int & hi ) {
            // the extreme values of the whole region; remembered for the pixels of one call
            static const Snap * last = nullptr;
            static uint64_t lastCall = 0;
            static int low = 0, high = 0;
            if ( last != r.s.data() || lastCall != vp::ctx().calls || ( x == 0 && y == 0 && c == 0 ) ) {
                last = r.s.data();
                lastCall = vp::ctx().calls;
                low = 255;
                high = 0;
                for ( uint32_t j = 0; j < r.h; ++j )
                    for ( uint32_t i = 0; i < r.w; ++i )
                        for ( uint32_t k = 0; k < r.s[0].cc; ++k ) {
                            low = std::min( low, int( r.in( 0, i, j, k ) ) );
                            high = std::max( high, int( r.in( 0, i, j, k ) ) );
                        }
            }
            const int v = r.in( 0, x, y, c );
            if ( low == high )
                lo = hi = v;
            else
                near( ( v - low ) * 255.0 / ( high - low ), 1e-7, lo, hi );
        };
        ops.push_back( op );
    }
    {
        Op op = base( "Sum", 1, 0 );
        SCALAR( CPU, Image_Function, Sum )
        SCALAR( SIMD, Image_Function_Simd, Sum )
        SCALAR( POOL, Function_Pool, Sum )
        SCALAR( AUTO, penguinV, Sum )
        op.colours = gray2;
        op.num = []( const Ref & r ) {
            uint64_t s = 0;
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    s += r.in( 0, x, y );
            return s;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "IsBinary", 1, 0 );
        SCALAR( CPU, Image_Function, IsBinary )
        op.colours = gray2;
        op.num = []( const Ref & r ) {
            std::vector<bool> seen( 256, false );
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    seen[r.in( 0, x, y )] = true;
            return uint64_t( std::count( seen.begin(), seen.end(), true ) <= 2 );
        };
        ops.push_back( op );
    }
    {
        Op op = base( "IsEqual", 2, 0 );
#define ISEQ( bk, NS )                                                                                                                                                  \
    FOR_CALL( bk, ROI_RET, a.num = NS::IsEqual( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h ) )                                                        \
    FOR_CALL( bk, FULL_RET, a.num = NS::IsEqual( *a.im[0], *a.im[1] ) )
        ISEQ( CPU, Image_Function )
        ISEQ( POOL, Function_Pool )
        ISEQ( AUTO, penguinV )
        op.num = []( const Ref & r ) {
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    for ( uint32_t c = 0; c < r.s[0].cc; ++c )
                        if ( r.in( 0, x, y, c ) != r.in( 1, x, y, c ) )
                            return uint64_t( 0 );
            return uint64_t( 1 );
        };
        ops.push_back( op );
    }
    {
        Op op = base( "Histogram", 1, 0 );
        VECTOR( CPU, Image_Function, Histogram )
        VECTOR( POOL, Function_Pool, Histogram )
        VECTOR( AUTO, penguinV, Histogram )
        op.vec = []( const Ref & r, Vec & v ) { // entries of the channels of a level follow each other
            const uint32_t cc = r.s[0].cc;
            v.assign( 256 * cc, 0 );
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    for ( uint32_t c = 0; c < cc; ++c )
                        ++v[r.in( 0, x, y, c ) * cc + c];
        };
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v( 2 );
            v[1].vec.assign( 300, 5 ); // previous content of the result is overwritten
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "HistogramMask", 2, 0 );
        FOR_CALL( CPU, ROI_OUT, Image_Function::Histogram( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h, a.vec ) )
        FOR_CALL( CPU, FULL_OUT, Image_Function::Histogram( *a.im[0], *a.im[1], a.vec ) )
        FOR_CALL( CPU, ROI_RET, a.vec = Image_Function::Histogram( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h ) )
        FOR_CALL( CPU, FULL_RET, a.vec = Image_Function::Histogram( *a.im[0], *a.im[1] ) )
        op.colours = []( const std::vector<uint8_t> & c ) { return c[1] == 1; };
        op.vec = []( const Ref & r, Vec & v ) {
            const uint32_t cc = r.s[0].cc;
            v.assign( 256 * cc, 0 );
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    for ( uint32_t c = 0; c < cc; ++c )
                        if ( r.in( 1, x, y ) > 0 )
                            ++v[r.in( 0, x, y, c ) * cc + c];
        };
        ops.push_back( op );
    }
    {
        Op op = base( "ProjectionProfile", 1, 0 );
        VECTOR( CPU, Image_Function, ProjectionProfile, a.b0 )
        VECTOR( SIMD, Image_Function_Simd, ProjectionProfile, a.b0 )
        VECTOR( POOL, Function_Pool, ProjectionProfile, a.b0 )
        VECTOR( AUTO, penguinV, ProjectionProfile, a.b0 )
        op.vec = []( const Ref & r, Vec & v ) {
            const uint32_t cc = r.s[0].cc;
            v.assign( r.a.b0 ? r.w * cc : r.h, 0 );
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    for ( uint32_t c = 0; c < cc; ++c )
                        v[r.a.b0 ? x * cc + c : y] += r.in( 0, x, y, c );
        };
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) {
            std::vector<Args> v( 4 );
            v[1].b0 = v[3].b0 = true;
            v[2].vec.assign( w + h, 9 );
            v[3].vec.assign( 2 * w + 1, 9 );
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "Accumulate", 1, 0 );
#define ACC( bk, NS )                                                                                                                                                   \
    FOR_CALL( bk, ROI_OUT, NS::Accumulate( *a.im[0], a.x[0], a.y[0], a.w, a.h, a.vec ) )                                                                                \
    FOR_CALL( bk, FULL_OUT, NS::Accumulate( *a.im[0], a.vec ) )
        ACC( CPU, Image_Function )
        ACC( SIMD, Image_Function_Simd )
        ACC( AUTO, penguinV )
        op.params = []( const Args & a, uint32_t w, uint32_t h ) { return a.vec.size() == uint64_t( w ) * h * a.im[0]->colorCount(); };
        op.vec = []( const Ref & r, Vec & v ) {
            const uint32_t cc = r.s[0].cc;
            v = r.a.vec;
            for ( uint32_t y = 0; y < r.h; ++y )
                for ( uint32_t x = 0; x < r.w; ++x )
                    for ( uint32_t c = 0; c < cc; ++c )
                        v[( y * r.w + x ) * cc + c] += r.in( 0, x, y, c );
        };
        op.variants = []( uint32_t w, uint32_t h, uint8_t cc ) {
            std::vector<Args> v( 2 );
            v[0].vec.assign( w * h * cc, 0 );
            for ( uint32_t i = 0; i < w * h * cc; ++i )
                v[1].vec.push_back( i * 2654435761u >> 3 );
            return v;
        };
        op.badVariants = []( uint32_t w, uint32_t h ) {
            std::vector<Args> v;
            for ( uint32_t s : { 0u, 1u, w * h - 1, w * h, w * h + 1, w * h * 3 - 1, w * h * 3, w * h * 4, w * h * 4 + 1 } ) {
                v.push_back( Args() );
                v.back().vec.assign( s, 1 );
            }
            return v;
        };
        ops.push_back( op );
    }

    // ------------------------------------------------------------------------------------------------ filters
    {
        Op op = base( "Median", 1, 1 );
        UNARY( CPU, Image_Function, Median, a.n0 )
        op.colours = gray2;
        op.params = []( const Args & a, uint32_t w, uint32_t h ) { return a.n0 >= 3 && a.n0 % 2 == 1 && a.n0 < w && a.n0 < h; };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) {
            const uint32_t e = r.a.n0 / 2;
            if ( x < e || y < e || x + e >= r.w || y + e >= r.h )
                return int( r.in( 0, x, y ) );
            std::vector<uint8_t> v;
            for ( uint32_t j = y - e; j <= y + e; ++j )
                for ( uint32_t i = x - e; i <= x + e; ++i )
                    v.push_back( r.in( 0, i, j ) );
            std::sort( v.begin(), v.end() );
            return int( v[v.size() / 2] );
        } );
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) {
            std::vector<Args> v;
            for ( uint32_t k = 3; k < w && k < h && k < 12; k += 2 ) {
                v.push_back( Args() );
                v.back().n0 = k;
            }
            return v;
        };
        op.badVariants = []( uint32_t w, uint32_t h ) {
            std::vector<Args> v;
            for ( uint32_t k : { 0u, 1u, 2u, 4u, w, h, w | 1, h | 1, w + 2, h + 2, 0x7FFFFFFFu, 0x80000001u, 0xFFFFFFFFu } ) {
                v.push_back( Args() );
                v.back().n0 = k;
            }
            return v;
        };
        ops.push_back( op );
    }
#define GRADIENT( F, M )                                                                                                                                                \
    {                                                                                                                                                                   \
        Op op = base( #F, 1, 1 );                                                                                                                                       \
        UNARY( CPU, Image_Function, F )                                                                                                                                 \
        op.colours = gray2;                                                                                                                                             \
        op.neighbours = true;                                                                                                                                           \
        op.params = []( const Args &, uint32_t w, uint32_t h ) { return w >= 3 && h >= 3; };                                                                            \
        op.pixel = []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t, int & lo, int & hi ) {                                                                     \
            const int64_t X = int64_t( r.a.x[0] ) + x, Y = int64_t( r.a.y[0] ) + y;                                                                                     \
            lo = hi = 0;                                                                                                                                                \
            if ( X == 0 || Y == 0 || X + 1 >= int64_t( r.s[0].w ) || Y + 1 >= int64_t( r.s[0].h ) )                                                                     \
                return;                                                                                                                                                 \
            const auto at = [&]( int i, int j ) { return int( r.s[0].at( uint32_t( X + i ), uint32_t( Y + j ) ) ); };                                                   \
            const int gx = at( -1, -1 ) + M * at( -1, 0 ) + at( -1, 1 ) - at( 1, -1 ) - M * at( 1, 0 ) - at( 1, 1 );                                                    \
            const int gy = at( -1, -1 ) + M * at( 0, -1 ) + at( 1, -1 ) - at( -1, 1 ) - M * at( 0, 1 ) - at( 1, 1 );                                                    \
            near( std::sqrt( double( gx ) * gx + double( gy ) * gy ) / ( ( M + 2 ) * std::sqrt( 2.0 ) ), 1e-4, lo, hi );                                                \
        };                                                                                                                                                              \
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) { return std::vector<Args>( w >= 3 && h >= 3 ? 1 : 0 ); };                                                  \
        ops.push_back( op );                                                                                                                                            \
    }
    GRADIENT( Prewitt, 1 )
    GRADIENT( Sobel, 2 )

    // the half size of the window is limited to a half of the region
#define MORPH( F, PICK, START )                                                                                                                                         \
    {                                                                                                                                                                   \
        Op op = base( #F, 0, 1 );                                                                                                                                       \
        FOR_CALL( CPU, ROI_OUT, Image_Function::F( *a.im[0], a.x[0], a.y[0], a.w, a.h, a.n0, a.n1 ) )                                                                    \
        FOR_CALL( CPU, FULL_OUT, Image_Function::F( *a.im[0], a.n0, a.n1 ) )                                                                                            \
        op.inplace = true;                                                                                                                                              \
        op.colours = gray2;                                                                                                                                             \
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) {                                                                                  \
            const int64_t kx = std::min( r.a.n0, r.w / 2 ), ky = std::min( r.a.n1, r.h / 2 );                                                                           \
            int v = START;                                                                                                                                              \
            for ( int64_t j = int64_t( y ) - ky; j <= int64_t( y ) + ky; ++j )                                                                                          \
                for ( int64_t i = int64_t( x ) - kx; i <= int64_t( x ) + kx; ++i )                                                                                      \
                    if ( i >= 0 && j >= 0 && i < r.w && j < r.h )                                                                                                       \
                        v = PICK( v, int( r.in( 0, uint32_t( i ), uint32_t( j ) ) ) );                                                                                  \
            return v;                                                                                                                                                   \
        } );                                                                                                                                                            \
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) {                                                                                                           \
            std::vector<Args> v;                                                                                                                                        \
            for ( uint32_t kx : { 0u, 1u, 2u, 3u, w, 0xFFFFFFFFu } )                                                                                                    \
                for ( uint32_t ky : { 0u, 1u, 2u, h, 0x80000000u } ) {                                                                                                  \
                    v.push_back( Args() );                                                                                                                              \
                    v.back().n0 = kx;                                                                                                                                   \
                    v.back().n1 = ky;                                                                                                                                   \
                }                                                                                                                                                       \
            return v;                                                                                                                                                   \
        };                                                                                                                                                              \
        ops.push_back( op );                                                                                                                                            \
    }
    MORPH( BinaryDilate, std::max, 0 )
    MORPH( BinaryErode, std::min, 255 )
}
