// Part of the table of the image functions (see ops.h): functions working on each pixel alone.
#include "ops.h"

void addPixelOps( std::vector<Op> & ops )
{
#define BINARY_OP( F, EXPR )                                                                                                                                            \
    {                                                                                                                                                                   \
        Op op = base( #F, 2, 1 );                                                                                                                                       \
        BINARY( CPU, Image_Function, F )                                                                                                                                \
        BINARY( SIMD, Image_Function_Simd, F )                                                                                                                          \
        BINARY( POOL, Function_Pool, F )                                                                                                                                \
        BINARY( AUTO, penguinV, F )                                                                                                                                     \
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) {                                                                                \
            const int p = r.in( 0, x, y, c ), q = r.in( 1, x, y, c );                                                                                                   \
            return EXPR;                                                                                                                                                \
        } );                                                                                                                                                            \
        ops.push_back( op );                                                                                                                                            \
    }
    BINARY_OP( AbsoluteDifference, p > q ? p - q : q - p )
    BINARY_OP( BitwiseAnd, p & q )
    BINARY_OP( BitwiseOr, p | q )
    BINARY_OP( BitwiseXor, p ^ q )
    BINARY_OP( Maximum, p > q ? p : q )
    BINARY_OP( Minimum, p < q ? p : q )
    BINARY_OP( Subtract, p > q ? p - q : 0 )

    {
        Op op = base( "Invert", 1, 1 );
        UNARY( CPU, Image_Function, Invert )
        UNARY( SIMD, Image_Function_Simd, Invert )
        UNARY( POOL, Function_Pool, Invert )
        UNARY( AUTO, penguinV, Invert )
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return 255 - r.in( 0, x, y, c ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "Threshold", 1, 1 );
        UNARY( CPU, Image_Function, Threshold, a.u0 )
        UNARY( SIMD, Image_Function_Simd, Threshold, a.u0 )
        UNARY( POOL, Function_Pool, Threshold, a.u0 )
        UNARY( AUTO, penguinV, Threshold, a.u0 )
        op.colours = gray2;
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) { return r.in( 0, x, y ) < r.a.u0 ? 0 : 255; } );
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v;
            for ( uint8_t t : { 0, 1, 2, 101, 127, 128, 129, 254, 255 } ) {
                v.push_back( Args() );
                v.back().u0 = t;
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "ThresholdRange", 1, 1 );
        UNARY( CPU, Image_Function, Threshold, a.u0, a.u1 )
        UNARY( SIMD, Image_Function_Simd, Threshold, a.u0, a.u1 )
        UNARY( POOL, Function_Pool, Threshold, a.u0, a.u1 )
        UNARY( AUTO, penguinV, Threshold, a.u0, a.u1 )
        op.colours = gray2;
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) {
            const int p = r.in( 0, x, y );
            return p < r.a.u0 || p > r.a.u1 ? 0 : 255;
        } );
        op.params = []( const Args & a, uint32_t, uint32_t ) { return a.u0 <= a.u1; };
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v;
            const uint8_t t[] = { 0, 1, 101, 127, 128, 129, 254, 255 };
            for ( size_t i = 0; i < sizeof t; ++i )
                for ( size_t k = i; k < sizeof t; ++k ) {
                    if ( k > i + 2 && ( i + k ) % 3 && k != 7 )
                        continue;
                    v.push_back( Args() );
                    v.back().u0 = t[i];
                    v.back().u1 = t[k];
                }
            return v;
        };
        op.badVariants = []( uint32_t, uint32_t ) {
            std::vector<Args> v;
            const uint8_t t[][2] = { { 1, 0 }, { 255, 0 }, { 255, 254 }, { 128, 127 }, { 200, 100 }, { 129, 128 } };
            for ( auto & p : t ) {
                v.push_back( Args() );
                v.back().u0 = p[0];
                v.back().u1 = p[1];
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "GammaCorrection", 1, 1 );
        UNARY( CPU, Image_Function, GammaCorrection, a.d0, a.d1 )
        UNARY( POOL, Function_Pool, GammaCorrection, a.d0, a.d1 )
        UNARY( AUTO, penguinV, GammaCorrection, a.d0, a.d1 )
        op.pixel = []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c, int & lo, int & hi ) {
            const double v = r.a.d0 * std::pow( r.in( 0, x, y, c ) / 255.0, r.a.d1 ) * 255;
            if ( v > 300 )
                lo = hi = 255;
            else
                near( v, 1e-7, lo, hi );
        };
        op.params = []( const Args & a, uint32_t, uint32_t ) { return a.d0 >= 0 && a.d1 >= 0; };
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v;
            const double p[][2] = { { 1, 1 }, { 1, 2.2 }, { 1, 0.45 }, { 0.5, 1 }, { 2, 1 }, { 3.7, 0.1 }, { 1, 30 }, { 100, 3 }, { 1e6, 1 } };
            for ( auto & q : p ) {
                v.push_back( Args() );
                v.back().d0 = q[0];
                v.back().d1 = q[1];
            }
            return v;
        };
        op.badVariants = []( uint32_t, uint32_t ) {
            std::vector<Args> v;
            const double p[][2] = { { -1, 1 }, { 1, -1 }, { -1e-9, 1 }, { 1, -1e-9 }, { -2, -2 } };
            for ( auto & q : p ) {
                v.push_back( Args() );
                v.back().d0 = q[0];
                v.back().d1 = q[1];
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "LookupTable", 1, 1 );
        UNARY( CPU, Image_Function, LookupTable, a.table )
        UNARY( POOL, Function_Pool, LookupTable, a.table )
        UNARY( AUTO, penguinV, LookupTable, a.table )
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return int( r.a.table[r.in( 0, x, y, c )] ); } );
        op.params = []( const Args & a, uint32_t, uint32_t ) { return a.table.size() == 256; };
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v( 2 );
            for ( uint32_t i = 0; i < 256; ++i ) {
                v[0].table.push_back( uint8_t( i * 167 + 13 ) );
                v[1].table.push_back( uint8_t( 255 - i / 2 ) );
            }
            return v;
        };
        op.badVariants = []( uint32_t, uint32_t ) {
            std::vector<Args> v;
            for ( size_t s : { 0, 1, 255, 257, 512 } ) {
                v.push_back( Args() );
                v.back().table.assign( s, 3 );
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "Fill", 0, 1 );
#define FILL( bk, NS )                                                                                                                                                  \
    FOR_CALL( bk, ROI_OUT, NS::Fill( *a.im[0], a.x[0], a.y[0], a.w, a.h, a.u0 ) )                                                                                       \
    FOR_CALL( bk, FULL_OUT, NS::Fill( *a.im[0], a.u0 ) )
        FILL( CPU, Image_Function )
        FILL( AUTO, penguinV )
        op.inplace = true;
        op.pixel = exact( []( const Ref & r, int, uint32_t, uint32_t, uint32_t ) { return int( r.a.u0 ); } );
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v( 3 );
            v[1].u0 = 77;
            v[2].u0 = 255;
            return v;
        };
        ops.push_back( op );
    }
}
