// Part of the table of the image functions (see ops.h): functions moving pixels.
#include "ops.h"
#include <limits>

void addGeometryOps( std::vector<Op> & ops )
{
    {
        Op op = base( "Copy", 1, 1 );
#define COPY( bk, NS ) U_ROI_OUT( bk, NS, Copy ) U_FULL_OUT( bk, NS, Copy ) U_ROI_RET( bk, NS, Copy )
        COPY( CPU, Image_Function )
        COPY( AUTO, penguinV )
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return int( r.in( 0, x, y, c ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "Flip", 1, 1 );
        UNARY( CPU, Image_Function, Flip, a.b0, a.b1 )
        UNARY( SIMD, Image_Function_Simd, Flip, a.b0, a.b1 )
        UNARY( POOL, Function_Pool, Flip, a.b0, a.b1 )
        UNARY( AUTO, penguinV, Flip, a.b0, a.b1 )
        op.colours = gray2;
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) { return int( r.in( 0, r.a.b0 ? r.w - 1 - x : x, r.a.b1 ? r.h - 1 - y : y ) ); } );
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v( 4 );
            for ( int i = 0; i < 4; ++i ) {
                v[size_t( i )].b0 = i & 1;
                v[size_t( i )].b1 = i & 2;
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "Transpose", 1, 1 );
        UNARY( CPU, Image_Function, Transpose )
        UNARY( POOL, Function_Pool, Transpose )
        UNARY( AUTO, penguinV, Transpose )
        op.colours = gray2;
        op.outSize = []( const Args &, uint32_t w, uint32_t h, uint32_t & ow, uint32_t & oh ) {
            ow = h;
            oh = w;
        };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) { return int( r.in( 0, y, x ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "Resize", 1, 1 );
#define RESIZE( bk, NS )                                                                                                                                                \
    FOR_CALL( bk, ROI_OUT, NS::Resize( *a.im[0], a.x[0], a.y[0], a.w, a.h, *a.im[1], a.x[1], a.y[1], a.ow, a.oh ) )                                                     \
    FOR_CALL( bk, FULL_OUT, NS::Resize( *a.im[0], *a.im[1] ) )                                                                                                          \
    FOR_CALL( bk, ROI_RET, a.ret = NS::Resize( *a.im[0], a.x[0], a.y[0], a.w, a.h, a.ow, a.oh ) )                                                                       \
    FOR_CALL( bk, FULL_RET, a.ret = NS::Resize( *a.im[0], a.ow, a.oh ) )
        RESIZE( CPU, Image_Function )
        RESIZE( POOL, Function_Pool )
        RESIZE( AUTO, penguinV )
        op.sizesFree = true;
        op.outSize = []( const Args & a, uint32_t, uint32_t, uint32_t & ow, uint32_t & oh ) {
            ow = a.ow;
            oh = a.oh;
        };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) {
            return int( r.in( 0, uint32_t( uint64_t( x ) * r.w / r.a.ow ), uint32_t( uint64_t( y ) * r.h / r.a.oh ), c ) );
        } );
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) {
            std::vector<Args> v;
            for ( uint32_t ow : { 1u, 2u, 3u, 4u, 5u, w } )
                for ( uint32_t oh : { 1u, 2u, 3u, 4u, 5u, h } ) {
                    if ( ( ( ow + oh ) % 2 && ow != w ) || ( ow == w && oh != h && oh != 2 ) )
                        continue;
                    v.push_back( Args() );
                    v.back().ow = ow;
                    v.back().oh = oh;
                }
            if ( w > 8 ) {
                v.push_back( Args() );
                v.back().ow = 2 * w + 3;
                v.back().oh = h + 1;
                v.push_back( Args() );
                v.back().ow = w - 1;
                v.back().oh = 3 * h;
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "Shift", 1, 1 );
        UNARY( CPU, Image_Function, Shift, a.d0, a.d1 )
        op.colours = gray2;
        op.neighbours = true;
        // bilinear interpolation at the shifted position, 0 if a needed pixel is outside of the image
        op.pixel = []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t, int & lo, int & hi ) {
            const double px = double( r.a.x[0] ) + x - r.a.d0, py = double( r.a.y[0] ) + y - r.a.d1;
            const double fx = std::floor( px ), fy = std::floor( py ), cx = std::ceil( px ), cy = std::ceil( py );
            if ( fx < 0 || fy < 0 || cx > double( r.s[0].w ) - 1 || cy > double( r.s[0].h ) - 1 ) {
                lo = hi = 0;
                return;
            }
            const auto at = [&]( double i, double j ) { return double( r.s[0].at( uint32_t( i ), uint32_t( j ) ) ); };
            const double u = px - fx, v = py - fy;
            // the weights are rounded to multiples of 1 / 16384
            near( at( fx, fy ) * ( 1 - u ) * ( 1 - v ) + at( cx, fy ) * u * ( 1 - v ) + at( fx, cy ) * ( 1 - u ) * v + at( cx, cy ) * u * v,
                  u == 0 && v == 0 ? 1e-9 : 255.0 * 4 * 0.5 / 16384 + 1e-6, lo, hi );
        };
        op.params = []( const Args & a, uint32_t w, uint32_t h ) { return std::fabs( a.d0 ) <= double( w ) - 1 && std::fabs( a.d1 ) <= double( h ) - 1; };
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) {
            std::vector<double> sx, sy;
            for ( double d : { 0.0, 0.5, -0.5, 0.25, -0.75, 1.0, -1.0, 1.375, -1.375, 2.0, -2.5, double( w ) - 1, 1 - double( w ), double( w ) - 1.5 } )
                if ( std::fabs( d ) <= double( w ) - 1 )
                    sx.push_back( d );
            for ( double d : { 0.0, 0.5, -0.25, 1.0, -1.0, 1.625, -1.5, double( h ) - 1, 1 - double( h ) } )
                if ( std::fabs( d ) <= double( h ) - 1 )
                    sy.push_back( d );
            std::vector<Args> v;
            for ( double i : sx )
                for ( double j : sy ) {
                    v.push_back( Args() );
                    v.back().d0 = i;
                    v.back().d1 = j;
                }
            return v;
        };
        op.badVariants = []( uint32_t w, uint32_t h ) {
            std::vector<Args> v;
            const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
            for ( double d : { double( w ), -double( w ), w - 0.999, 0.999 - w, 1e10, -1e10, 1e300, inf, -inf, nan } ) {
                v.push_back( Args() );
                v.back().d0 = d;
            }
            for ( double d : { double( h ), -double( h ), h - 0.999, 0.999 - h, 4294967296.0, -4294967296.0, -1e300, inf, -inf, nan } ) {
                v.push_back( Args() );
                v.back().d1 = d;
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        // d0, d1: centre in the input relative to the region; d2, d3: centre in the output relative to the region; d4: angle
        Op op = base( "Rotate", 1, 1 );
        FOR_CALL( CPU, ROI_OUT, Image_Function::Rotate( *a.im[0], a.x[0], a.y[0], a.x[0] + a.d0, a.y[0] + a.d1, *a.im[1], a.x[1], a.y[1], a.d2, a.d3, a.w, a.h, a.d4 ) )
        FOR_CALL( CPU, FULL_OUT, Image_Function::Rotate( *a.im[0], a.d0, a.d1, *a.im[1], a.d2, a.d3, a.d4 ) )
        FOR_CALL( CPU, ROI_RET, a.ret = Image_Function::Rotate( *a.im[0], a.x[0], a.y[0], a.x[0] + a.d0, a.y[0] + a.d1, a.w, a.h, a.d4 ) )
        FOR_CALL( CPU, FULL_RET, a.ret = Image_Function::Rotate( *a.im[0], a.d0, a.d1, a.d4 ) )
        op.colours = gray2;
        // bilinear interpolation inside of the region, 0 where the four pixels are not all inside of it
        op.pixel = []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t, int & lo, int & hi ) {
            const double size = std::fabs( r.a.d0 ) + std::fabs( r.a.d1 ) + std::fabs( r.a.d2 ) + std::fabs( r.a.d3 );
            if ( size > 1e6 ) { // pixels are not representable at such a distance, only memory safety matters
                lo = 0;
                hi = 255;
                return;
            }
            const double c = std::cos( r.a.d4 ), s = std::sin( r.a.d4 );
            const double dx = x - r.a.d2, dy = y - r.a.d3;
            const double px = c * dx + s * dy + r.a.d0, py = -s * dx + c * dy + r.a.d1;
            lo = hi = 0;
            if ( !( px > -1 && py > -1 && px < double( r.w ) && py < double( r.h ) ) ) // false for NaN values
                return;
            // the position is known up to the rounding error of the accumulated steps; it is exact without rotation
            const double e = r.a.d4 == 0 ? 0 : 1e-8 * ( 1 + size );
            const double maxX = double( r.w ) - 1, maxY = double( r.h ) - 1;
            if ( px < -e || py < -e || px >= maxX + e || py >= maxY + e )
                return;
            const bool mayBeOutside = px < e || py < e || px >= maxX - e || py >= maxY - e;
            if ( mayBeOutside && ( maxX < 1 || maxY < 1 ) && e > 0 ) {
                hi = 255;
                return;
            }
            const double qx = std::min( std::max( px, 0.0 ), maxX - 1e-12 ), qy = std::min( std::max( py, 0.0 ), maxY - 1e-12 );
            const uint32_t ix = uint32_t( qx ), iy = uint32_t( qy );
            const double u = qx - ix, v = qy - iy;
            near( r.in( 0, ix, iy ) * ( 1 - u ) * ( 1 - v ) + r.in( 0, ix + 1, iy ) * u * ( 1 - v ) + r.in( 0, ix, iy + 1 ) * ( 1 - u ) * v + r.in( 0, ix + 1, iy + 1 ) * u * v,
                  1e-5, lo, hi );
            if ( mayBeOutside && e > 0 )
                lo = 0;
        };
        op.variants = []( uint32_t w, uint32_t h, uint8_t ) {
            std::vector<Args> v;
            const double pi = 3.14159265358979323846;
            const double centre[][4] = { { 0, 0, 0, 0 },
                                         { ( w - 1 ) / 2.0, ( h - 1 ) / 2.0, ( w - 1 ) / 2.0, ( h - 1 ) / 2.0 },
                                         { 0.25, 1.5, 1, 0 },
                                         { double( w ), -1, 0.5, 0.75 } };
            for ( auto & c : centre )
                for ( double angle : { 0.0, pi / 2, pi, -pi / 2, 0.3, -1.1, 4.0, 2 * pi } ) {
                    v.push_back( Args() );
                    v.back().d0 = c[0];
                    v.back().d1 = c[1];
                    v.back().d2 = c[2];
                    v.back().d3 = c[3];
                    v.back().d4 = angle;
                }
            const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
            const double extreme[][5] = { { 1e300, 0, 0, 0, 0.5 }, { 0, -1e300, 0, 0, 0 }, { 0, 0, 1e12, 0, 1 }, { nan, 0, 0, 0, 0 }, { 0, 0, 0, 0, nan }, { 0, 0, 0, 0, inf }, { 0, inf, 0, -inf, 0.1 }, { 4294967296.0, 0, 0, 0, 0 } };
            for ( auto & c : extreme ) {
                v.push_back( Args() );
                v.back().d0 = c[0];
                v.back().d1 = c[1];
                v.back().d2 = c[2];
                v.back().d3 = c[3];
                v.back().d4 = c[4];
            }
            return v;
        };
        ops.push_back( op );
    }
}
