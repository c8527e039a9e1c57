// C05: several threads call Function_Pool operations on the global pool at the same time.
#include "function_pool.h"
#include "image_function.h"
#include "penguinv_exception.h"
#include "rt.h"
#include "thread_pool.h"
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace vp;
using penguinV::Image;

namespace
{
    // everything one call works with; inputs may be shared by the callers, they are never written
    struct Inputs
    {
        Image gray1, gray2, rgb;
        std::vector<uint8_t> table;
    };
    struct Outputs
    {
        Image a, b, c;
        std::vector<uint32_t> values;
        uint64_t number = 0;
        bool threw = false;
    };
    typedef void ( *Call )( const Inputs & i, Outputs & o, uint32_t n );

    struct Op
    {
        const char * name;
        Call pool, serial;
        bool throws;
    };

#define OP( NAME, THROWS, EXPRESSION )                                                                                                                                  \
    {                                                                                                                                                                   \
        NAME, []( const Inputs & i, Outputs & o, uint32_t n ) { using namespace Function_Pool; (void)i, (void)n; EXPRESSION; },                                        \
            []( const Inputs & i, Outputs & o, uint32_t n ) { using namespace Image_Function; (void)i, (void)n; EXPRESSION; }, THROWS                                   \
    }

    const std::vector<Op> & operations()
    {
        static const std::vector<Op> ops = {
            OP( "Invert", false, o.a = Invert( i.gray1 ) ),
            OP( "Sum", false, o.number = Sum( i.gray1, 0, 0, n, n ) ),
            OP( "Histogram", false, o.values = Histogram( i.gray1, 0, 0, n, n ) ),
            OP( "IsEqual", false, o.number = IsEqual( i.gray1, 0, 0, i.gray2, 0, 0, n, n ) ),
            OP( "ProjectionProfile", false, o.values = ProjectionProfile( i.gray1, 0, 0, n, n, false ) ),
            OP( "WrongThreshold", true, o.a = Threshold( i.gray1, 0, 0, n, n, 200, 100 ) ),
            OP( "WrongGamma", true, o.a = GammaCorrection( i.gray1, 0, 0, n, n, -1, 0.5 ) ),
            OP( "Resize", false, o.a = Resize( i.gray1, 0, 0, n, n, 3, 2 ) ),
            OP( "Split", false, ( o.a.resize( n, n ), o.b.resize( n, n ), o.c.resize( n, n ), Split( i.rgb, 0, 0, o.a, 0, 0, o.b, 0, 0, o.c, 0, 0, n, n ) ) ),
            OP( "Normalize", false, o.a = Normalize( i.gray1, 0, 0, n, n ) ),
            OP( "AbsoluteDifference", false, o.a = AbsoluteDifference( i.gray1, 0, 0, i.gray2, 0, 0, n, n ) ),
            OP( "BitwiseAnd", false, o.a = BitwiseAnd( i.gray1, i.gray2 ) ),
            OP( "BitwiseOr", false, o.a = BitwiseOr( i.gray1, i.gray2 ) ),
            OP( "BitwiseXor", false, o.a = BitwiseXor( i.gray1, i.gray2 ) ),
            OP( "ConvertToGrayScale", false, o.a = ConvertToGrayScale( i.rgb ) ),
            OP( "ConvertToRgb", false, o.a = ConvertToRgb( i.gray1 ) ),
            OP( "ExtractChannel", false, o.a = ExtractChannel( i.rgb, 0, 0, n, n, 1 ) ),
            OP( "Flip", false, o.a = Flip( i.gray1, 0, 0, n, n, true, true ) ),
            OP( "GammaCorrection", false, o.a = GammaCorrection( i.gray1, 1, 0.5 ) ),
            OP( "LookupTable", false, o.a = LookupTable( i.gray1, i.table ) ),
            OP( "Maximum", false, o.a = Maximum( i.gray1, i.gray2 ) ),
            OP( "Merge", false, o.a = Merge( i.gray1, i.gray2, i.gray1 ) ),
            OP( "Minimum", false, o.a = Minimum( i.gray1, i.gray2 ) ),
            OP( "RgbToBgr", false, o.a = RgbToBgr( i.rgb ) ),
            OP( "Subtract", false, o.a = Subtract( i.gray1, i.gray2 ) ),
            OP( "Threshold", false, o.a = Threshold( i.gray1, 0, 0, n, n, 90 ) ),
            OP( "DoubleThreshold", false, o.a = Threshold( i.gray1, 0, 0, n, n, 50, 150 ) ),
            OP( "Transpose", false, o.a = Transpose( i.gray1 ) ),
        };
        return ops;
    }

    const Op & op( const char * name )
    {
        for ( const Op & o : operations() )
            if ( std::string( o.name ) == name )
                return o;
        abort();
    }

    void execute( Call f, const Inputs & in, Outputs & out, uint32_t n )
    {
        try {
            f( in, out, n );
        }
        catch ( const penguinVException & ) {
            out.threw = true;
        }
        catch ( const std::exception & ) {
            check( false, "an exception of a foreign type was thrown" );
        }
    }

    bool same( const Image & x, const Image & y )
    {
        if ( x.width() != y.width() || x.height() != y.height() || x.colorCount() != y.colorCount() || x.empty() != y.empty() )
            return false;
        for ( uint32_t r = 0; r < x.height(); ++r )
            if ( memcmp( x.data() + r * x.rowSize(), y.data() + r * y.rowSize(), x.width() * x.colorCount() ) != 0 )
                return false;
        return true;
    }

    void compare( const Op & o, const Outputs & got, const Outputs & expected )
    {
        check( got.threw == expected.threw && expected.threw == o.throws, expected.threw ? "a wrong call did not throw" : "a call threw because of an error of another caller" );
        if ( !expected.threw ) {
            check( same( got.a, expected.a ) && same( got.b, expected.b ) && same( got.c, expected.c ), "a caller got wrong pixels" );
            check( got.values == expected.values && got.number == expected.number, "a caller got wrong values" );
        }
    }

    void caller( const Op * o, const Inputs * in, uint32_t n, int times )
    {
        Outputs expected;
        execute( o->serial, *in, expected, n );
        for ( int k = 0; k < times; ++k ) {
            Outputs got;
            execute( o->pool, *in, got, n );
            compare( *o, got, expected );
        }
    }

    void fillInputs( Inputs * in, uint32_t n )
    {
        in->gray1 = Image( n, n );
        in->gray2 = Image( n, n );
        in->rgb = Image( n, n, penguinV::RGB );
        for ( uint32_t k = 0; k < n * n; ++k ) {
            in->gray1.data()[k] = uint8_t( 200 - 37 * k );
            in->gray2.data()[k] = uint8_t( 20 + 51 * k );
        }
        for ( uint32_t k = 0; k < n * n * 3; ++k )
            in->rgb.data()[k] = uint8_t( 11 + 19 * k );
        in->table.resize( 256 );
        for ( uint32_t k = 0; k < 256; ++k )
            in->table[k] = uint8_t( k * 7 + 1 );
    }

    // C35: one memory request of the caller or of the first worker fails during a call: it throws or is right, and the next call is right
    void failing( size_t workers, const Op * o, uint32_t n, int thread, int number )
    {
        ThreadPoolMonoid::instance().resize( workers );
        {
            std::unique_ptr<Inputs> in( new Inputs );
            fillInputs( in.get(), n );
            Outputs expected;
            execute( o->serial, *in, expected, n );
            {
                std::unique_ptr<Outputs> got( new Outputs );
                bool thrown = false;
                vp::failAllocation( number, thread );
                try {
                    o->pool( *in, *got, n );
                }
                catch ( const std::exception & ) {
                    thrown = true;
                }
                const bool failed = vp::failed();
                check( failed || thrown == o->throws, "a call throws without a failure" );
                if ( !thrown )
                    compare( *o, *got, expected );
            }
            Outputs got;
            execute( o->pool, *in, got, n );
            compare( *o, got, expected );
        }
        ThreadPoolMonoid::instance().stop();
    }

    // the first images of the program are made by the callers
    void ownInputs( const Op * o, uint32_t n )
    {
        std::unique_ptr<Inputs> in( new Inputs );
        fillInputs( in.get(), n );
        caller( o, in.get(), n, 1 );
    }

    void everythingOwn( size_t workers, const Op * first, const Op * second, uint32_t n )
    {
        ThreadPoolMonoid::instance().resize( workers );
        std::thread t( ownInputs, second, n );
        ownInputs( first, n );
        t.join();
        ThreadPoolMonoid::instance().stop();
    }

    // the operations of the callers; a caller may repeat its call
    void concurrent( size_t workers, std::vector<const Op *> ops, uint32_t n, int times )
    {
        ThreadPoolMonoid::instance().resize( workers );
        std::unique_ptr<Inputs> in( new Inputs );
        fillInputs( in.get(), n );
        std::vector<std::thread> threads;
        for ( size_t i = 1; i < ops.size(); ++i )
            threads.push_back( std::thread( caller, ops[i], in.get(), n, times ) );
        caller( ops[0], in.get(), n, times );
        for ( std::thread & t : threads )
            t.join();
        ThreadPoolMonoid::instance().stop();
    }
}

int main( int argc, char ** argv )
{
    std::vector<Scenario> v;
    const auto add = [&]( const std::string & name, size_t workers, const std::vector<const char *> & names, uint32_t n, int times, int bound, bool quick ) {
        std::vector<const Op *> ops;
        std::string all = name + "_w" + std::to_string( workers ) + "_n" + std::to_string( n );
        for ( const char * s : names ) {
            ops.push_back( &op( s ) );
            all += std::string( "_" ) + s;
        }
        v.push_back( Scenario{ all, [=] { concurrent( workers, ops, n, times ); }, bound, false, quick } );
    };
    if ( argc > 1 && std::string( argv[1] ) == "C35" ) {
        for ( const Op & o : operations() ) {
            const Op * x = &o;
            const auto fail = [&]( size_t workers, int thread, int k, int bound, bool quick ) {
                v.push_back( Scenario{ std::string( "failing_w" ) + std::to_string( workers ) + "_" + o.name + ( thread ? "_worker_" : "_caller_" ) + std::to_string( k ),
                                       [=] { failing( workers, x, 2, thread, k ); }, bound, false, quick } );
            };
            for ( int k = 0; k < 32; ++k )
                for ( size_t w = 1; w <= 2; ++w )
                    fail( w, 0, k, 1, w == 1 );
            for ( int k = 0; k < 6; ++k )
                for ( size_t w = 1; w <= 2; ++w )
                    fail( w, 1, k, 1, w == 1 );
        }
        return explore_main( argc - 1, argv + 1, v, REPORT_SEMANTIC | REPORT_DEADLOCK | REPORT_RACE | REPORT_MEMORY );
    }
    for ( const Op & o : operations() ) {
        add( "alone", 1, { o.name }, 2, 1, 2, true );
        add( "alone", 2, { o.name }, 2, 1, 2, true );
        const bool normalize = std::string( o.name ) == "Normalize"; // many tasks
        const size_t number = size_t( &o - &operations()[0] ); // the first operations differ in what they share between their tasks
        add( "alone", 3, { o.name }, 3, 1, 1, number < 9 );
        add( "alone", 3, { o.name }, 3, 1, 2, false );
        add( "twice", 2, { o.name }, 2, 2, 1, false );
        add( "pair", 1, { o.name, "Invert" }, 2, 1, 1, true );
        add( "pair", 2, { o.name, "Sum" }, 2, 1, 1, number < 9 );
        add( "pair", 2, { "WrongThreshold", o.name }, 2, 1, 1, number % 3 == 1 && !normalize );
        add( "pair", 1, { o.name, "WrongGamma" }, 2, 1, 1, true );
        add( "pair", 2, { o.name, o.name }, 2, 1, 1, false );
        add( "pair", 1, { o.name, o.name }, 2, 1, 2, false );
        add( "pair", 3, { "WrongThreshold", o.name }, 3, 1, 1, false );
    }
    add( "three", 1, { "Sum", "WrongThreshold", "Invert" }, 1, 1, 1, true );
    add( "three", 2, { "Sum", "WrongThreshold", "Invert" }, 1, 1, 1, false );
    for ( const char * a : { "Invert", "Sum" } )
        for ( int w = 1; w <= 2; ++w ) {
            const Op *x = &op( a ), *y = &op( "Flip" );
            v.push_back( Scenario{ std::string( "own_w" ) + std::to_string( w ) + "_" + a, [=] { everythingOwn( size_t( w ), x, y, 1 ); }, 1, false, true } );
        }
    add( "three", 2, { "Sum", "WrongThreshold", "Invert" }, 2, 1, 1, false );
    return explore_main( argc, argv, v, REPORT_SEMANTIC | REPORT_DEADLOCK | REPORT_RACE | REPORT_MEMORY );
}
