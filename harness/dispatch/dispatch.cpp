// Decides C16: every function of the automatically dispatched interface with every assignment of three image types to its arguments,
// every subset of backends that have the function, and every kind of registered conversions.
// Two of the types are devices of our own: their memory holds encoded pixels, so code which uses the memory of another type is noticed.
#include "../img/common.h"
#include "parameter_validation.h"
#include <map>
#include <tuple>

std::vector<Op> OPS;

namespace
{
    using namespace Image_Function_Helper;

    const int TYPES = 3;
    const uint8_t typeId[TYPES] = { 0, 7, 9 };
    const uint8_t typeMask[TYPES] = { 0, 0x5A, 0xC3 };
    template <int T>
    struct DeviceImage : public Image
    {
        DeviceImage()
        {
            _setType( typeId[T], []( size_t n ) { return static_cast<uint8_t *>( ::operator new( n ) ); }, []( uint8_t * d ) { ::operator delete( d ); },
                      []( uint8_t * out, uint8_t * in, size_t n ) { memcpy( out, in, n ); }, []( uint8_t * d, uint8_t v, size_t n ) { memset( d, v ^ typeMask[T], n ); } );
        }
    };

    Image prototype( int t )
    {
        static const Image cpu;
        static const DeviceImage<1> d1;
        static const DeviceImage<2> d2;
        return t == 0 ? cpu.generate() : t == 1 ? d1.generate() : d2.generate();
    }

    // image of another type with the same pixels, including those of row padding where the row size allows it
    Image recode( const Image & in, int from, int to, uint8_t alignment )
    {
        Image out = prototype( to ).generate( in.width(), in.height(), in.colorCount(), alignment );
        if ( out.rowSize() == in.rowSize() )
            for ( size_t i = 0; i < size_t( in.rowSize() ) * in.height(); ++i )
                out.data()[i] = in.data()[i] ^ typeMask[from] ^ typeMask[to];
        else
            for ( uint32_t y = 0; y < in.height(); ++y )
                for ( uint32_t i = 0; i < in.width() * in.colorCount(); ++i )
                    out.data()[size_t( y ) * out.rowSize() + i] = in.data()[size_t( y ) * in.rowSize() + i] ^ typeMask[from] ^ typeMask[to];
        return out;
    }

    struct Log
    {
        std::vector<std::pair<int, int>> calls; // type and function of executed backend functions
        int foreign = 0; // images of another type given to a backend
        int conversions = 0;
        int wrongConversions = 0;
    } LOG;

    // converts images of a type to CPU images for the time of a call
    template <typename A>
    struct Holder
    {
        A value;
        Holder( A v, int )
            : value( v )
        {}
        A get()
        {
            return value;
        }
        void back() {}
    };
    template <>
    struct Holder<const Image &>
    {
        const Image & original;
        Image decoded;
        Holder( const Image & i, int t )
            : original( i )
        {
            if ( i.type() != typeId[t] )
                ++LOG.foreign;
            else
                decoded = recode( i, t, 0, i.alignment() );
        }
        const Image & get()
        {
            return decoded;
        }
        void back() {}
    };
    template <>
    struct Holder<Image &>
    {
        Image & original;
        Image decoded;
        int type;
        Holder( Image & i, int t )
            : original( i )
            , type( t )
        {
            if ( i.type() != typeId[t] )
                ++LOG.foreign;
            else
                decoded = recode( i, t, 0, i.alignment() );
        }
        Image & get()
        {
            return decoded;
        }
        void back()
        {
            for ( size_t i = 0; i < size_t( original.rowSize() ) * original.height(); ++i )
                original.data()[i] = decoded.data()[i] ^ typeMask[type];
        }
    };

    template <typename R, typename Tuple, typename F, size_t... I>
    R invoke( F f, Tuple & t, std::index_sequence<I...> )
    {
        struct Back
        {
            Tuple & t;
            ~Back()
            {
                int dummy[] = { ( std::get<I>( t ).back(), 0 )... };
                (void)dummy;
            }
        };
        // outputs are written back after a successful call only
        if constexpr ( std::is_void<R>::value ) {
            f( std::get<I>( t ).get()... );
            Back b{ t };
        }
        else {
            R r = f( std::get<I>( t ).get()... );
            Back b{ t };
            return r;
        }
    }

    template <int T, int ID, auto F>
    struct Wrap;
    template <int T, int ID, typename R, typename... A, R ( *F )( A... )>
    struct Wrap<T, ID, F>
    {
        static R call( A... args )
        {
            LOG.calls.push_back( std::make_pair( T, ID ) );
            const int foreign = LOG.foreign;
            std::tuple<Holder<A>...> holders( Holder<A>( args, T )... );
            if ( LOG.foreign != foreign )
                throw penguinVException( "image of another type" );
            return invoke<R>( F, holders, std::index_sequence_for<A...>() );
        }
    };

#define TABLE( X )                                                                                                                                                       \
    X( AbsoluteDifference, AbsoluteDifference )                                                                                                                          \
    X( Accumulate, Accumulate )                                                                                                                                          \
    X( BitwiseAnd, BitwiseAnd )                                                                                                                                          \
    X( BitwiseOr, BitwiseOr )                                                                                                                                            \
    X( BitwiseXor, BitwiseXor )                                                                                                                                          \
    X( ConvertToGrayScale, ConvertToGrayScale )                                                                                                                          \
    X( ConvertToRgb, ConvertToRgb )                                                                                                                                      \
    X( Copy, Copy )                                                                                                                                                      \
    X( ExtractChannel, ExtractChannel )                                                                                                                                  \
    X( Fill, Fill )                                                                                                                                                      \
    X( Flip, Flip )                                                                                                                                                      \
    X( GammaCorrection, GammaCorrection )                                                                                                                                \
    X( GetPixel, GetPixel )                                                                                                                                              \
    X( Histogram, Histogram )                                                                                                                                            \
    X( Invert, Invert )                                                                                                                                                  \
    X( IsEqual, IsEqual )                                                                                                                                                \
    X( LookupTable, LookupTable )                                                                                                                                        \
    X( Maximum, Maximum )                                                                                                                                                \
    X( Merge, Merge )                                                                                                                                                    \
    X( Minimum, Minimum )                                                                                                                                                \
    X( Normalize, Normalize )                                                                                                                                            \
    X( ProjectionProfile, ProjectionProfile )                                                                                                                            \
    X( Resize, Resize )                                                                                                                                                  \
    X( RgbToBgr, RgbToBgr )                                                                                                                                              \
    X( RgbToRgba, RgbToRgba )                                                                                                                                            \
    X( RgbaToRgb, RgbaToRgb )                                                                                                                                            \
    X( SetPixel, SetPixel )                                                                                                                                              \
    X( SetPixel2, SetPixel )                                                                                                                                             \
    X( Shift, Shift )                                                                                                                                                    \
    X( Split, Split )                                                                                                                                                    \
    X( Subtract, Subtract )                                                                                                                                              \
    X( Sum, Sum )                                                                                                                                                        \
    X( Threshold, Threshold )                                                                                                                                            \
    X( Threshold2, Threshold )                                                                                                                                           \
    X( Transpose, Transpose )

    enum Id
    {
#define X( a, b ) ID_##a,
        TABLE( X )
#undef X
        ID_COUNT
    };

    int idOf( const std::string & name )
    {
        if ( name == "ThresholdRange" )
            return ID_Threshold2;
#define X( a, b )                                                                                                                                                        \
    if ( name == #a )                                                                                                                                                    \
        return ID_##a;
        TABLE( X )
#undef X
        return -1;
    }

    template <int T>
    FunctionTableHolder tableWithout( int id )
    {
        FunctionTableHolder t;
#define X( a, b )                                                                                                                                                        \
    {                                                                                                                                                                    \
        constexpr decltype( t.a ) f = &Image_Function::b;                                                                                                                \
        if ( id != ID_##a )                                                                                                                                              \
            t.a = &Wrap<T, ID_##a, f>::call;                                                                                                                             \
    }
        TABLE( X )
#undef X
        return t;
    }

    FunctionTableHolder tableOf( int t, int without )
    {
        return t == 0 ? tableWithout<0>( without ) : t == 1 ? tableWithout<1>( without ) : tableWithout<2>( without );
    }

    template <int A, int B>
    void convertImage( const Image & in, Image & out )
    {
        ++LOG.conversions;
        if ( in.type() != typeId[A] || out.type() != typeId[B] ) {
            ++LOG.wrongConversions;
            throw penguinVException( "wrong types" );
        }
        Image_Function::ValidateImageParameters( in, out );
        Image_Function::CheckCommonColorCount( in, out );
        for ( uint32_t y = 0; y < in.height(); ++y )
            for ( uint32_t i = 0; i < in.width() * in.colorCount(); ++i )
                out.data()[size_t( y ) * out.rowSize() + i] = in.data()[size_t( y ) * in.rowSize() + i] ^ typeMask[A] ^ typeMask[B];
    }

    FunctionTable::CopyForm1 converter( int a, int b )
    {
        static const FunctionTable::CopyForm1 f[3][3] = { { nullptr, convertImage<0, 1>, convertImage<0, 2> },
                                                          { convertImage<1, 0>, nullptr, convertImage<1, 2> },
                                                          { convertImage<2, 0>, convertImage<2, 1>, nullptr } };
        return f[a][b];
    }

    std::vector<Op> pixelOps()
    {
        std::vector<Op> ops;
        Op op = base( "GetPixel", 1, 0 );
        op.num = []( const Ref & ) { return uint64_t( 0 ); };
        FOR_CALL( AUTO, FULL_RET, a.num = penguinV::GetPixel( *a.im[0], a.x[0], a.y[0] ) )
        FOR_CALL( CPU, FULL_RET, a.num = Image_Function::GetPixel( *a.im[0], a.x[0], a.y[0] ) )
        ops.push_back( op );
        op = base( "SetPixel", 0, 1 );
        op.inplace = true;
        FOR_CALL( AUTO, ROI_OUT, penguinV::SetPixel( *a.im[0], a.x[0], a.y[0], 77 ) )
        FOR_CALL( CPU, ROI_OUT, Image_Function::SetPixel( *a.im[0], a.x[0], a.y[0], 77 ) )
        ops.push_back( op );
        op = base( "SetPixel2", 0, 1 );
        op.inplace = true;
        FOR_CALL( AUTO, ROI_OUT, penguinV::SetPixel( *a.im[0], Vec( 2, a.x[0] ), Vec{ a.y[0], a.y[0] + 1 }, 77 ) )
        FOR_CALL( CPU, ROI_OUT, Image_Function::SetPixel( *a.im[0], Vec( 2, a.x[0] ), Vec{ a.y[0], a.y[0] + 1 }, 77 ) )
        ops.push_back( op );
        return ops;
    }

    // which conversions are registered
    struct Conversions
    {
        const char * name;
        bool has[3][3];
    };
    std::vector<Conversions> conversions()
    {
        std::vector<Conversions> v;
        Conversions all{ "all conversions", { { 0, 1, 1 }, { 1, 0, 1 }, { 1, 1, 0 } } };
        v.push_back( all );
        v.push_back( Conversions{ "no conversion", { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } } } );
        static const char * n[3][3] = { { "", "no 0->7", "no 0->9" }, { "no 7->0", "", "no 7->9" }, { "no 9->0", "no 9->7", "" } };
        for ( int a = 0; a < 3; ++a )
            for ( int b = 0; b < 3; ++b )
                if ( a != b ) {
                    Conversions c = all;
                    c.name = n[a][b];
                    c.has[a][b] = false;
                    v.push_back( c );
                }
        return v;
    }

    struct Env
    {
        ImageTypeManager clean;
        Env()
            : clean( ImageTypeManager::instance() )
        {}
        void set( int id, int available, const Conversions & c, bool enabled )
        {
            ImageTypeManager & m = ImageTypeManager::instance();
            m = clean;
            for ( int t = 0; t < TYPES; ++t ) {
                // replace what is registered: set an empty table through a new manager is impossible, so every entry is forced
                if ( t == 0 )
                    const_cast<FunctionTableHolder &>( m.functionTable( 0 ) ) = FunctionTableHolder();
                m.setFunctionTable( typeId[t], tableOf( t, available & ( 1 << t ) ? -1 : id ) );
            }
            for ( int a = 0; a < TYPES; ++a )
                for ( int b = 0; b < TYPES; ++b )
                    if ( c.has[a][b] )
                        m.setConvertFunction( converter( a, b ), prototype( a ), prototype( b ) );
            m.enableIntertypeConversion( enabled );
        }
    };

    Snap decoded( const Snap & s, int t )
    {
        Snap d = s;
        for ( uint8_t & v : d.d )
            v ^= typeMask[t];
        return d;
    }

    // equal pixels and geometry; bytes of row padding may differ
    bool samePixels( const Snap & a, const Snap & b )
    {
        if ( a.w != b.w || a.h != b.h || a.cc != b.cc )
            return false;
        for ( uint32_t y = 0; y < a.h; ++y )
            for ( uint32_t i = 0; i < a.w * a.cc; ++i )
                if ( a.d[size_t( y ) * a.row + i] != b.d[size_t( y ) * b.row + i] )
                    return false;
        return true;
    }

    void dispatch()
    {
        Env env;
        const std::vector<Conversions> convs = conversions();
        std::vector<Op> ops = OPS;
        for ( const Op & o : pixelOps() )
            ops.push_back( o );
        std::set<int> covered;

        for ( const Op & op : ops ) {
            const int id = idOf( op.name );
            for ( const Impl & impl : op.impls ) {
                if ( impl.bk != AUTO )
                    continue;
                if ( id < 0 ) {
                    printf( "NOTE %s is not a function of the dispatch table\n", op.name.c_str() );
                    continue;
                }
                const Impl * direct = op.find( CPU, impl.form );
                if ( direct == nullptr )
                    continue;
                covered.insert( id );
                const bool ret = impl.form == ROI_RET || impl.form == FULL_RET;
                const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
                const int n = op.inplace ? 1 : op.ins + ( ret ? 0 : op.outs );

                const std::vector<std::vector<uint8_t>> colours = [&] {
                    std::vector<std::vector<uint8_t>> v;
                    const uint8_t cc[3] = { 1, 3, 4 };
                    std::vector<int> i( size_t( n ), 0 );
                    while ( true ) {
                        std::vector<uint8_t> c;
                        for ( int k : i )
                            c.push_back( cc[k] );
                        if ( op.colours( c ) )
                            v.push_back( c );
                        int k = 0;
                        while ( k < n && ++i[size_t( k )] == 3 )
                            i[size_t( k++ )] = 0;
                        if ( k == n )
                            break;
                    }
                    return v;
                }();

                for ( const std::vector<uint8_t> & cc : colours )
                    for ( int bad = 0; bad < 2; ++bad ) {
                        if ( bad && full )
                            continue;
                        // operands of the direct call on CPU images
                        const uint32_t w = 3, h = 2;
                        std::vector<Args> variants = op.variants( w, h, cc[0] );
                        if ( variants.size() > ( ctx().thorough ? 6u : 2u ) ) {
                            std::vector<Args> some;
                            const size_t step = variants.size() / ( ctx().thorough ? 6 : 2 );
                            for ( size_t i = step - 1; i < variants.size(); i += step )
                                some.push_back( variants[i] );
                            variants = some;
                        }
                        for ( size_t vi = 0; vi < variants.size(); ++vi ) {
                            const Args & params = variants[vi];
                            uint32_t ow = w, oh = h;
                            {
                                Args t = params;
                                op.outSize( t, w, h, ow, oh );
                            }
                            std::vector<Dim> dims;
                            for ( int k = 0; k < n; ++k ) {
                                const bool isOut = !op.inplace && k >= op.ins;
                                const uint32_t dw = isOut ? ow : w, dh = isOut ? oh : h;
                                Dim d{ full ? dw : dw + 2, full ? dh : dh + 1, cc[size_t( k )], uint8_t( k % 2 ? 4 : 1 ) };
                                dims.push_back( d );
                            }
                            Operands cpu( op, impl, dims, HASH );
                            for ( int k = 0; k < n; ++k ) {
                                cpu.args.x[k] = full ? 0 : 1u;
                                cpu.args.y[k] = full ? 0 : 1u;
                            }
                            cpu.args.w = w;
                            cpu.args.h = h;
                            setParams( cpu.args, params );
                            if ( bad )
                                cpu.args.x[n - 1] = 1000;

                            if ( !next() )
                                continue;
                            label( "%s", ( describe( op, impl, cpu.args ) + " colours" ).c_str() );

                            Operands plain( op, impl, dims, HASH );
                            Args pa = cpu.args;
                            pa.im = plain.args.im;
                            ImageTypeManager::instance() = env.clean;
                            const Result expected = call( *direct, pa );

                            int assignments = 1;
                            for ( int k = 0; k < n; ++k )
                                assignments *= TYPES;

                            for ( int available = 0; available < 8; ++available )
                                for ( const Conversions & c : convs )
                                    for ( int enabled = 0; enabled < 2; ++enabled ) {
                                        env.set( id, available, c, enabled != 0 );
                                        for ( int as = 0; as < assignments; ++as ) {
                                            std::vector<int> t;
                                            for ( int k = 0, v = as; k < n; ++k, v /= TYPES )
                                                t.push_back( v % TYPES );
                                            std::vector<Image> images;
                                            for ( int k = 0; k < n; ++k )
                                                images.push_back( recode( *cpu.args.im[size_t( k )], 0, t[size_t( k )], dims[size_t( k )].al ) );
                                            Args a = cpu.args;
                                            for ( int k = 0; k < n; ++k )
                                                a.im[size_t( k )] = &images[size_t( k )];
                                            const std::vector<Snap> before = snaps( a );

                                            std::string types;
                                            for ( int k : t )
                                                types += std::string( types.empty() ? "" : "," ) + std::to_string( typeId[k] );
                                            phase( "types %s, function available for mask %d of types 0,7,9, %s, conversion %s", types.c_str(), available, c.name,
                                                   enabled ? "enabled" : "disabled" );
                                            LOG = Log();
                                            const Result r = call( impl, a );

                                            bool uniform = true;
                                            for ( int k : t )
                                                uniform = uniform && k == t[0];
                                            const bool own = ( available >> t[0] ) & 1;
                                            const bool allConversions = &c == &convs[0];

                                            if ( LOG.foreign )
                                                fail( "the implementation for one type was called with an image of another type" );
                                            if ( LOG.wrongConversions )
                                                fail( "a conversion function was called with images of other types" );
                                            for ( auto & k : LOG.calls )
                                                if ( k.second != id )
                                                    fail( "another function was executed" );
                                            if ( LOG.calls.size() > 1 )
                                                fail( "%zu implementations were executed", LOG.calls.size() );

                                            if ( !r.threw ) {
                                                if ( LOG.calls.empty() )
                                                    fail( "no implementation was executed" );
                                                if ( uniform && own && LOG.calls[0].first != t[0] )
                                                    fail( "the implementation of type %d was executed instead of the one for the type of the images", typeId[LOG.calls[0].first] );
                                                if ( uniform && own && LOG.conversions )
                                                    fail( "images were converted without need" );
                                                if ( uniform && !own && !enabled )
                                                    fail( "the function is not available but was not refused" );
                                                if ( expected.threw )
                                                    fail( "invalid arguments were not refused" );
                                            }
                                            else if ( !expected.threw ) {
                                                if ( uniform && own )
                                                    fail( "valid call with images of one type was refused" );
                                                if ( enabled && allConversions && available )
                                                    fail( "valid call was refused though all conversions exist and are enabled" );
                                            }

                                            ++ctx().compared;
                                            for ( int k = 0; k < n; ++k ) {
                                                const Snap &p = before[size_t( k )], &q = r.ops[size_t( k )];
                                                if ( images[size_t( k )].type() != typeId[t[size_t( k )]] )
                                                    fail( "the type of operand %d changed", k );
                                                const bool output = !ret && k >= ( op.inplace ? 0 : op.ins );
                                                if ( p.w != q.w || p.h != q.h || p.cc != q.cc || p.row != q.row )
                                                    fail( "the geometry of operand %d changed", k );
                                                else if ( !output || r.threw ) {
                                                    // an output can be completed before the conversion of another one is found to be missing
                                                    const bool completed = output && !allConversions && !LOG.calls.empty() && !expected.threw
                                                                           && samePixels( decoded( q, t[size_t( k )] ), expected.ops[size_t( k )] );
                                                    if ( p.d != q.d && !completed )
                                                        fail( "operand %d, which is %s, changed", k, output ? "the output of a refused call" : "an input" );
                                                }
                                                else if ( !expected.threw && !samePixels( decoded( q, t[size_t( k )] ), expected.ops[size_t( k )] ) )
                                                    fail( "operand %d differs from the result of the direct call", k );
                                            }
                                            if ( !r.threw && !expected.threw ) {
                                                if ( r.num != expected.num || r.vec != expected.vec )
                                                    fail( "the result differs from the result of the direct call" );
                                                if ( ret && op.outs ) {
                                                    if ( a.im.size() && !samePixels( decoded( r.ret, t[0] ), expected.ret ) )
                                                        fail( "the created image differs from the result of the direct call or has another type than the input" );
                                                }
                                            }
                                        }
                                    }
                            ImageTypeManager::instance() = env.clean;
                        }
                    }
            }
        }
        if ( ctx().args.empty() )
            for ( int id = 0; id < ID_COUNT; ++id )
                if ( !covered.count( id ) && id != ID_RgbToRgba && id != ID_RgbaToRgb && id != ID_Shift ) { // not part of the dispatched interface
                    if ( !next() )
                                continue;
                            label( "function %d of the table", id );
                    fail( "function %d of the dispatch table was never called", id );
                }
    }

    // Registering: a second table of a type adds the missing functions and replaces existing ones only when forced
    void registration()
    {
        const size_t count = sizeof( FunctionTableHolder ) / sizeof( void * );
        typedef void ( *Any )();
        Any dummy[3] = { nullptr, reinterpret_cast<Any>( uintptr_t( 0x1000 ) ), reinterpret_cast<Any>( uintptr_t( 0x2000 ) ) };
        const ImageTypeManager clean = ImageTypeManager::instance();
        for ( size_t i = 0; i < count; ++i )
            for ( int oldValue = 0; oldValue < 2; ++oldValue )
                for ( int newValue = 0; newValue < 3; newValue += 2 )
                    for ( int force = 0; force < 2; ++force )
                        for ( int first = 0; first < 2; ++first ) {
                            if ( !next() )
                                continue;
                            label( "registration of table entry %zu: %s %s, %sforced%s", i, oldValue ? "set" : "not set", newValue ? "then set" : "then not set", force ? "" : "not ",
                                  first ? ", type with a new number" : "" );
                            ImageTypeManager & m = ImageTypeManager::instance();
                            m = clean;
                            FunctionTableHolder a, b;
                            reinterpret_cast<Any *>( &a )[i] = dummy[oldValue];
                            reinterpret_cast<Any *>( &b )[i] = dummy[newValue];
                            ++ctx().calls;
                            m.setFunctionTable( 11, a );
                            if ( !first )
                                m.setFunctionTable( 11, b, force != 0 );
                            else
                                m.setFunctionTable( 12, b, force != 0 );
                            const Any * result = reinterpret_cast<const Any *>( &m.functionTable( 11 ) );
                            const Any expected = first ? dummy[oldValue] : newValue && ( force || !oldValue ) ? dummy[newValue] : dummy[oldValue];
                            for ( size_t k = 0; k < count; ++k )
                                if ( result[k] != ( k == i ? expected : nullptr ) )
                                    fail( "entry %zu is %p, expected %p", k, reinterpret_cast<void *>( result[k] ), reinterpret_cast<void *>( k == i ? expected : nullptr ) );
                            if ( first && reinterpret_cast<const Any *>( &m.functionTable( 12 ) )[i] != dummy[newValue] )
                                fail( "the table of the other type is wrong" );
                            ++ctx().compared;
                            m = clean;
                        }

        if ( next() ) {
            label( "unknown types" );
            ImageTypeManager & m = ImageTypeManager::instance();
            m = clean;
            int refused = 0;
            try {
                m.functionTable( 200 );
            }
            catch ( const penguinVException & ) {
                ++refused;
            }
            try {
                m.image( 200 );
            }
            catch ( const penguinVException & ) {
                ++refused;
            }
            try {
                Image a( 2, 2 ), b( 2, 2 );
                m.convert( a, b );
            }
            catch ( const penguinVException & ) {
                ++refused;
            }
            try {
                m.setConvertFunction( converter( 0, 1 ), Image(), Image() );
            }
            catch ( const penguinVException & ) {
                ++refused;
            }
            if ( refused != 4 )
                fail( "a type or conversion which is not registered was not refused" );
            m = clean;
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    OPS = makeOps();
    if ( !ctx().args.empty() )
        OPS.erase( std::remove_if( OPS.begin(), OPS.end(), []( const Op & o ) { return o.name != ctx().args[0]; } ), OPS.end() );
    ThreadPoolMonoid::instance().resize( 2 );
    for ( int t = 0; t < TYPES; ++t )
        prototype( t );
    registration();
    dispatch();
    vp::finish();
    return 0;
}
