// Part of the table of the image functions (see ops.h): channels and colours.
#include "ops.h"

template <int IN, int OUT> // 0: any
static bool inOut( const std::vector<uint8_t> & c )
{
    return ( IN == 0 || c[0] == IN ) && ( c.size() < 2 || c[1] == OUT );
}

void addChannelOps( std::vector<Op> & ops )
{
    {
        Op op = base( "ConvertToGrayScale", 1, 1 );
        UNARY( CPU, Image_Function, ConvertToGrayScale )
        UNARY( POOL, Function_Pool, ConvertToGrayScale )
        UNARY( AUTO, penguinV, ConvertToGrayScale )
        op.colours = inOut<0, 1>;
        op.outColour = []( const Ref & ) { return uint8_t( 1 ); };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) {
            if ( r.s[0].cc == 1 )
                return int( r.in( 0, x, y ) );
            return ( r.in( 0, x, y, 0 ) + r.in( 0, x, y, 1 ) + r.in( 0, x, y, 2 ) ) / 3;
        } );
        ops.push_back( op );
    }
    {
        Op op = base( "ConvertToRgb", 1, 1 );
        UNARY( CPU, Image_Function, ConvertToRgb )
        UNARY( SIMD, Image_Function_Simd, ConvertToRgb )
        UNARY( POOL, Function_Pool, ConvertToRgb )
        UNARY( AUTO, penguinV, ConvertToRgb )
        op.colours = inOut<0, 3>;
        op.outColour = []( const Ref & ) { return uint8_t( 3 ); };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return int( r.in( 0, x, y, r.s[0].cc == 1 ? 0 : c ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "ExtractChannel", 1, 1 );
        UNARY( CPU, Image_Function, ExtractChannel, a.u0 )
        UNARY( POOL, Function_Pool, ExtractChannel, a.u0 )
        UNARY( AUTO, penguinV, ExtractChannel, a.u0 )
        op.colours = inOut<0, 1>;
        op.outColour = []( const Ref & ) { return uint8_t( 1 ); };
        op.params = []( const Args & a, uint32_t, uint32_t ) { return a.u0 < a.im[0]->colorCount(); };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t ) { return int( r.in( 0, x, y, r.a.u0 ) ); } );
        op.variants = []( uint32_t, uint32_t, uint8_t cc ) {
            std::vector<Args> v( cc );
            for ( uint8_t c = 0; c < cc; ++c )
                v[c].u0 = c;
            return v;
        };
        op.badVariants = []( uint32_t, uint32_t ) {
            std::vector<Args> v;
            for ( int c : { 1, 2, 3, 4, 5, 127, 128, 255 } ) {
                v.push_back( Args() );
                v.back().u0 = uint8_t( c );
            }
            return v;
        };
        ops.push_back( op );
    }
    {
        Op op = base( "RgbToBgr", 1, 1 );
        UNARY( CPU, Image_Function, RgbToBgr )
        UNARY( SIMD, Image_Function_Simd, RgbToBgr )
        UNARY( POOL, Function_Pool, RgbToBgr )
        UNARY( AUTO, penguinV, RgbToBgr )
        op.colours = inOut<3, 3>;
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return int( r.in( 0, x, y, 2 - c ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "RgbToRgba", 1, 1 );
        UNARY( CPU, Image_Function, RgbToRgba )
        op.colours = inOut<3, 4>;
        op.outColour = []( const Ref & ) { return uint8_t( 4 ); };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return c == 3 ? 255 : int( r.in( 0, x, y, c ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "RgbaToRgb", 1, 1 );
        UNARY( CPU, Image_Function, RgbaToRgb )
        op.colours = inOut<4, 3>;
        op.outColour = []( const Ref & ) { return uint8_t( 3 ); };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return int( r.in( 0, x, y, c ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "Merge", 3, 1 );
#define MERGE( bk, NS )                                                                                                                                                 \
    FOR_CALL( bk, ROI_OUT,                                                                                                                                              \
              NS::Merge( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], *a.im[2], a.x[2], a.y[2], *a.im[3], a.x[3], a.y[3], a.w, a.h ) )                           \
    FOR_CALL( bk, FULL_OUT, NS::Merge( *a.im[0], *a.im[1], *a.im[2], *a.im[3] ) )                                                                                       \
    FOR_CALL( bk, ROI_RET, a.ret = NS::Merge( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], *a.im[2], a.x[2], a.y[2], a.w, a.h ) )                                \
    FOR_CALL( bk, FULL_RET, a.ret = NS::Merge( *a.im[0], *a.im[1], *a.im[2] ) )
        MERGE( CPU, Image_Function )
        MERGE( POOL, Function_Pool )
        MERGE( AUTO, penguinV )
        op.colours = []( const std::vector<uint8_t> & c ) { return c[0] == 1 && c[1] == 1 && c[2] == 1 && ( c.size() < 4 || c[3] == 3 ); };
        op.outColour = []( const Ref & ) { return uint8_t( 3 ); };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return int( r.in( int( c ), x, y ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "Split", 1, 3 );
#define SPLIT( bk, NS )                                                                                                                                                 \
    FOR_CALL( bk, ROI_OUT,                                                                                                                                              \
              NS::Split( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], *a.im[2], a.x[2], a.y[2], *a.im[3], a.x[3], a.y[3], a.w, a.h ) )                           \
    FOR_CALL( bk, FULL_OUT, NS::Split( *a.im[0], *a.im[1], *a.im[2], *a.im[3] ) )
        SPLIT( CPU, Image_Function )
        SPLIT( POOL, Function_Pool )
        SPLIT( AUTO, penguinV )
        op.colours = []( const std::vector<uint8_t> & c ) { return c[0] == 3 && c[1] == 1 && c[2] == 1 && c[3] == 1; };
        op.outColour = []( const Ref & ) { return uint8_t( 1 ); };
        op.pixel = exact( []( const Ref & r, int k, uint32_t x, uint32_t y, uint32_t ) { return int( r.in( 0, x, y, uint32_t( k ) ) ); } );
        ops.push_back( op );
    }
    {
        Op op = base( "ReplaceChannel", 1, 1 );
        FOR_CALL( CPU, ROI_OUT, Image_Function::ReplaceChannel( *a.im[0], a.x[0], a.y[0], *a.im[1], a.x[1], a.y[1], a.w, a.h, a.u0 ) )
        FOR_CALL( CPU, FULL_OUT, Image_Function::ReplaceChannel( *a.im[0], *a.im[1], a.u0 ) )
        op.colours = inOut<1, 3>;
        op.outColour = []( const Ref & ) { return uint8_t( 3 ); };
        op.params = []( const Args & a, uint32_t, uint32_t ) { return a.u0 < 3; };
        op.pixel = exact( []( const Ref & r, int, uint32_t x, uint32_t y, uint32_t c ) { return c == r.a.u0 ? int( r.in( 0, x, y ) ) : int( r.in( 1, x, y, c ) ); } );
        op.variants = []( uint32_t, uint32_t, uint8_t ) {
            std::vector<Args> v( 3 );
            v[1].u0 = 1;
            v[2].u0 = 2;
            return v;
        };
        op.badVariants = []( uint32_t, uint32_t ) {
            std::vector<Args> v;
            for ( int c : { 3, 4, 127, 128, 255 } ) {
                v.push_back( Args() );
                v.back().u0 = uint8_t( c );
            }
            return v;
        };
        ops.push_back( op );
    }
}
