// C07: every sequence of container operations over two images up to a depth, compared with a value model.
#include "hooks.h"
#include "image_buffer.h"
#include "vp.h"
#include <functional>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

using namespace vp;
using penguinV::ImageTemplate;

namespace
{
    const uint8_t OTHER_TYPE = 9;
    std::set<void *> otherMemory; // memory of the images of the other type

    template <class T>
    class OtherImage : public ImageTemplate<T>
    {
    public:
        OtherImage()
        {
            ImageTemplate<T>::_setType( OTHER_TYPE, allocate, deallocate, copyMemory, setMemory );
        }

    private:
        static T * allocate( size_t size )
        {
            void * p = heap::take( size * sizeof( T ) );
            const bool t = heap::tracking();
            heap::tracking() = false;
            otherMemory.insert( p );
            heap::tracking() = t;
            return static_cast<T *>( p );
        }
        static void deallocate( T * p )
        {
            if ( otherMemory.erase( p ) != 1 )
                fail( "memory of one image type is released as memory of another type" );
            free( p );
        }
        static void copyMemory( T * out, T * in, size_t size )
        {
            if ( !otherMemory.count( out ) || !otherMemory.count( in ) )
                fail( "memory of one image type is copied as memory of another type" );
            memcpy( out, in, size );
        }
        static void setMemory( T * p, T value, size_t size )
        {
            for ( size_t i = 0; i < size / sizeof( T ); ++i )
                p[i] = value;
        }
    };

    template <class T>
    struct Model
    {
        uint64_t w = 0, h = 0, row = 0;
        uint8_t c = 1, a = 1, type = 0;
        std::vector<T> data;
        bool empty() const
        {
            return data.empty();
        }
        uint64_t rowOf( uint64_t width, uint64_t colours, uint64_t alignment ) const
        {
            return ( width * colours + alignment - 1 ) / alignment * alignment;
        }
        void clear()
        {
            w = h = row = 0;
            data.clear();
        }
        void size( uint64_t width, uint64_t height )
        {
            w = width;
            h = height;
            row = rowOf( w, c, a );
            data.assign( size_t( row * h ), T( 0 ) );
        }
        bool operator==( const Model & m ) const
        {
            return w == m.w && h == m.h && row == m.row && c == m.c && a == m.a && type == m.type && data == m.data;
        }
    };

    const size_t N = 2;

    template <class T>
    struct World
    {
        ImageTemplate<T> * im[N];
        Model<T> m[N];
        uint32_t counter = 1;

        World()
        {
            for ( auto & i : im )
                i = new ImageTemplate<T>();
        }
        ~World()
        {
            for ( auto & i : im )
                delete i;
        }
        // the memory of a new buffer is not initialised: give it contents which exist nowhere else
        void scribble( size_t i )
        {
            T * p = im[i]->data();
            if ( p == nullptr )
                fail( "the image has no memory after it was resized" );
            for ( size_t k = 0; k < m[i].data.size(); ++k )
                m[i].data[k] = T( counter * 7 + k * 3 + 1 );
            ++counter;
            for ( size_t k = 0; k < m[i].data.size(); ++k )
                p[k] = m[i].data[k];
        }
        // the state of the image is not prescribed (moved from, failed): take it over when it is a consistent one
        void adopt( size_t i )
        {
            const ImageTemplate<T> & x = *im[i];
            Model<T> & k = m[i];
            k.w = x.width();
            k.h = x.height();
            k.c = x.colorCount();
            k.a = x.alignment();
            k.row = x.rowSize();
            k.type = x.type();
            k.data.clear();
            if ( !x.empty() )
                k.data.assign( x.data(), x.data() + k.row * k.h );
            if ( k.c == 0 || k.a == 0 || ( x.empty() ? k.w != 0 || k.h != 0 || k.row != 0 : k.w == 0 || k.h == 0 || k.row != k.rowOf( k.w, k.c, k.a ) ) )
                fail( "inconsistent image: %ux%u, row size %u, %u channels, alignment %u, %s", x.width(), x.height(), x.rowSize(), x.colorCount(), x.alignment(), x.empty() ? "empty" : "not empty" );
        }
        void verify()
        {
            ++ctx().compared;
            for ( size_t i = 0; i < N; ++i ) {
                const ImageTemplate<T> & x = *im[i];
                const Model<T> & k = m[i];
                if ( x.width() != k.w || x.height() != k.h || x.rowSize() != k.row || x.colorCount() != k.c || x.alignment() != k.a || x.type() != k.type || x.empty() != k.empty()
                     || ( x.data() == nullptr ) != k.empty() )
                    fail( "image %zu is %ux%u, row size %u, %u channels, alignment %u, type %u, %s; expected %ux%u, row size %u, %u channels, alignment %u, type %u, %s", i, x.width(), x.height(), x.rowSize(),
                          x.colorCount(), x.alignment(), x.type(), x.empty() ? "empty" : "not empty", unsigned( k.w ), unsigned( k.h ), unsigned( k.row ), k.c, k.a, k.type, k.empty() ? "empty" : "not empty" );
                for ( size_t n = 0; n < k.data.size(); ++n )
                    if ( x.data()[n] != k.data[n] )
                        fail( "image %zu has a wrong value at byte %zu", i, n );
                if ( !( x == x ) )
                    fail( "an image is not equal to itself" );
            }
            if ( !m[0].empty() && ( im[0]->data() == im[1]->data() || *im[0] == *im[1] ) )
                fail( "two images share their memory" );
            if ( m[0].empty() && m[1].empty() && ( *im[0] == *im[1] ) != ( m[0].c == m[1].c && m[0].a == m[1].a && m[0].type == m[1].type ) )
                fail( "two empty images are compared wrongly" );
        }
    };

    template <class T>
    struct Op
    {
        std::string name;
        // executes the operation on the images and on the model; the model must be updated only after the real call
        std::function<void( World<T> & )> run;
        size_t target; // the only image that may differ when the operation threw (N: none)
        size_t target2;
    };

    template <class T>
    void mustThrow( std::function<void()> f, const char * what )
    {
        bool threw = false;
        try {
            f();
        }
        catch ( const std::exception & ) {
            threw = true;
            ++ctx().refused;
        }
        if ( !threw )
            fail( "%s was not refused", what );
    }

    // calls of the code under test are made inside of this, so that only their heap requests are counted
    int64_t failing = -1;
    bool reachedFault = false;
    template <class F>
    void call( F f )
    {
        heap::Track t( failing );
        try {
            f();
        }
        catch ( ... ) {
            reachedFault = reachedFault || t.reached();
            throw;
        }
        reachedFault = reachedFault || t.reached();
    }

    template <class T>
    std::vector<Op<T>> operations( bool small )
    {
        typedef World<T> W;
        std::vector<Op<T>> ops;
        const auto add = [&]( const std::string & name, size_t target, std::function<void( W & )> f, size_t target2 = N ) { ops.push_back( Op<T>{ name, f, target, target2 } ); };
        for ( size_t i = 0; i < N; ++i ) {
            const size_t o = 1 - i;
            const std::string n = i ? "b" : "a";
            const std::string on = i ? "a" : "b";
            struct Size
            {
                uint32_t w, h;
            };
            std::vector<Size> sizes = { { 2, 3 }, { 3, 2 }, { 0, 4 } };
            if ( !small )
                sizes.push_back( { 4, 0 } ), sizes.push_back( { 1, 1 } ), sizes.push_back( { 0, 0 } ), sizes.push_back( { 5, 2 } );
            for ( Size s : sizes )
                add( n + ".resize(" + std::to_string( s.w ) + "," + std::to_string( s.h ) + ")", i, [=]( W & w ) {
                    call( [&] { w.im[i]->resize( s.w, s.h ); } );
                    if ( s.w && s.h && ( s.w != w.m[i].w || s.h != w.m[i].h ) ) {
                        w.m[i].size( s.w, s.h );
                        w.scribble( i );
                    }
                } );
            add( n + ".clear()", i, [=]( W & w ) {
                call( [&] { w.im[i]->clear(); } );
                w.m[i].clear();
            } );
            std::vector<unsigned> colours = { 3 };
            if ( !small )
                colours = { 0, 1, 3, 4 };
            for ( unsigned c : colours )
                add( n + ".setColorCount(" + std::to_string( c ) + ")", i, [=]( W & w ) {
                    call( [&] { w.im[i]->setColorCount( uint8_t( c ) ); } );
                    if ( c && c != w.m[i].c ) {
                        w.m[i].clear();
                        w.m[i].c = uint8_t( c );
                    }
                } );
            std::vector<unsigned> alignments = { 4 };
            if ( !small )
                alignments = { 0, 1, 4, 255 };
            for ( unsigned a : alignments )
                add( n + ".setAlignment(" + std::to_string( a ) + ")", i, [=]( W & w ) {
                    call( [&] { w.im[i]->setAlignment( uint8_t( a ) ); } );
                    if ( a && a != w.m[i].a ) {
                        w.m[i].clear();
                        w.m[i].a = uint8_t( a );
                    }
                } );
            add( n + ".fill(77)", i, [=]( W & w ) {
                call( [&] { w.im[i]->fill( 77 ); } );
                for ( T & v : w.m[i].data )
                    v = 77;
            } );
            for ( size_t s : { o, i } ) {
                const std::string sn = s ? "b" : "a";
                const auto copied = [=]( W & w ) {
                    if ( s != i )
                        w.m[i] = w.m[s];
                };
                add( n + " = " + sn, i, [=]( W & w ) {
                    if ( w.m[i].type != w.m[s].type ) {
                        mustThrow<T>( [&] { *w.im[i] = *w.im[s]; }, "a copy between image types" );
                        return;
                    }
                    call( [&] { *w.im[i] = *w.im[s]; } );
                    copied( w );
                } );
                if ( !small )
                    add( n + ".copy(" + sn + ")", i, [=]( W & w ) {
                        if ( w.m[i].type != w.m[s].type ) {
                            mustThrow<T>( [&] { w.im[i]->copy( *w.im[s] ); }, "a copy between image types" );
                            return;
                        }
                        call( [&] { w.im[i]->copy( *w.im[s] ); } );
                        copied( w );
                    } );
                add( n + " = move(" + sn + ")", i, [=]( W & w ) {
                    const Model<T> before = w.m[s];
                    call( [&] { *w.im[i] = std::move( *w.im[s] ); } );
                    if ( s != i )
                        w.adopt( s );
                    w.m[i] = before;
                },
                     s );
                if ( s == o ) {
                    add( n + ".swap(" + sn + ")", i, [=]( W & w ) {
                        call( [&] { w.im[i]->swap( *w.im[s] ); } );
                        std::swap( w.m[i], w.m[s] );
                    },
                         s );
                    add( n + " := copy constructed from " + sn, i, [=]( W & w ) {
                        ImageTemplate<T> * made = nullptr;
                        call( [&] { made = new ImageTemplate<T>( *w.im[s] ); } );
                        delete w.im[i];
                        w.im[i] = made;
                        w.m[i] = w.m[s];
                    } );
                    add( n + " := move constructed from " + sn, i, [=]( W & w ) {
                        ImageTemplate<T> * made = nullptr;
                        call( [&] { made = new ImageTemplate<T>( std::move( *w.im[s] ) ); } );
                        delete w.im[i];
                        w.im[i] = made;
                        w.m[i] = w.m[s];
                        w.adopt( s );
                    },
                         s );
                }
                else if ( !small ) {
                    add( n + ".swap(" + sn + ")", i, [=]( W & w ) { call( [&] { w.im[i]->swap( *w.im[s] ); } ); } );
                }
                if ( !small || s == o )
                    add( n + " = " + sn + ".generate(3,2,3,4)", i, [=]( W & w ) {
                        Model<T> made;
                        made.type = w.m[s].type;
                        made.c = 3;
                        made.a = 4;
                        call( [&] { *w.im[i] = w.im[s]->generate( 3, 2, 3, 4 ); } );
                        w.m[i] = made;
                        w.m[i].size( 3, 2 );
                        w.scribble( i );
                    } );
            }
            struct Shape
            {
                uint32_t w, h;
                uint8_t c, a;
            };
            std::vector<Shape> shapes = { { 6, 1, 1, 1 }, { 2, 3, 1, 1 }, { 2, 3, 0, 1 }, { 1, 2, 3, 1 }, { 5, 1, 1, 6 } };
            if ( !small ) {
                const std::vector<Shape> more = { { 1, 2, 1, 3 }, { 3, 2, 1, 4 }, { 1, 2, 4, 4 }, { 4, 2, 1, 2 }, { 2, 3, 1, 0 }, { 0x80000003u, 2, 1, 1 }, { 3, 0x80000002u, 1, 1 }, { 0x55555557u, 2, 3, 1 }, { 0xFFFFFFFFu, 1, 1, 7 }, { 5, 2, 1, 1 }, { 0, 0, 1, 1 }, { 7, 0, 1, 1 } };
                shapes.insert( shapes.end(), more.begin(), more.end() );
            }
            for ( const Shape & s : shapes )
                add( n + ".mutate(" + std::to_string( s.w ) + "," + std::to_string( s.h ) + "," + std::to_string( s.c ) + "," + std::to_string( s.a ) + ")", i, [=]( W & w ) {
                    if ( w.m[i].empty() && ( s.w == 0 || s.h == 0 ) )
                        return; // not prescribed
                    bool done = false;
                    call( [&] { done = w.im[i]->mutate( s.w, s.h, s.c, s.a ); } );
                    bool expected = s.c && s.a;
                    uint64_t row = 0;
                    if ( expected ) {
                        row = w.m[i].rowOf( s.w, s.c, s.a );
                        expected = row <= 0xFFFFFFFFu && row * s.h == w.m[i].row * w.m[i].h;
                    }
                    if ( done != expected )
                        fail( "mutate() returned %d", int( done ) );
                    if ( expected ) {
                        w.m[i].w = s.w;
                        w.m[i].h = s.h;
                        w.m[i].c = s.c;
                        w.m[i].a = s.a;
                        w.m[i].row = row;
                    }
                } );
            std::vector<Shape> given = { { 2, 2, 3, 4 } };
            if ( !small )
                given.push_back( { 5, 1, 1, 1 } );
            for ( const Shape & s : given )
                add( n + ".assign(memory," + std::to_string( s.w ) + "," + std::to_string( s.h ) + "," + std::to_string( s.c ) + "," + std::to_string( s.a ) + ")", i, [=]( W & w ) {
                    if ( w.m[i].type != 0 )
                        return;
                    Model<T> k;
                    k.c = s.c;
                    k.a = s.a;
                    k.size( s.w, s.h );
                    T * memory = new T[k.data.size()];
                    try {
                        call( [&] { w.im[i]->assign( memory, s.w, s.h, s.c, s.a ); } );
                    }
                    catch ( ... ) {
                        delete[] memory;
                        throw;
                    }
                    w.m[i] = k;
                    w.scribble( i );
                } );
            if ( !small ) {
                const Shape wrong[] = { { 0, 1, 1, 1 }, { 1, 0, 1, 1 }, { 1, 1, 0, 1 }, { 1, 1, 1, 0 }, { 0x55555556u, 1, 3, 1 }, { 0xFFFFFFFFu, 1, 1, 4 }, { 0x01010102u, 1, 255, 1 } };
                for ( const Shape & s : wrong )
                    add( n + ".assign(wrong)", i, [=]( W & w ) {
                        T * memory = new T[64];
                        mustThrow<T>( [&] { w.im[i]->assign( memory, s.w, s.h, s.c, s.a ); }, "a wrong assignment" );
                        delete[] memory;
                    } );
                add( n + ".assign(null)", i, [=]( W & w ) { mustThrow<T>( [&] { w.im[i]->assign( nullptr, 1, 1, 1, 1 ); }, "an assignment of no memory" ); } );
                const Shape big[] = { { 0x55555556u, 1, 3, 1 }, { 0xFFFFFFFFu, 1, 2, 1 }, { 0xFFFFFFFFu, 1, 1, 4 }, { 0x80000000u, 2, 2, 1 }, { 0x01010102u, 3, 255, 255 }, { 0x40000001u, 1, 4, 1 } };
                for ( const Shape & s : big ) {
                    add( n + ".resize(" + std::to_string( s.w ) + "," + std::to_string( s.h ) + ") with " + std::to_string( s.c ) + " channels and alignment " + std::to_string( s.a ), i, [=]( W & w ) {
                        w.im[i]->setColorCount( s.c );
                        w.im[i]->setAlignment( s.a );
                        mustThrow<T>( [&] { w.im[i]->resize( s.w, s.h ); }, "a row size beyond 32 bits" );
                        w.adopt( i );
                    } );
                    add( "constructor of an image of " + std::to_string( s.w ) + "x" + std::to_string( s.h ), N, [=]( W & ) {
                        mustThrow<T>( [&] { ImageTemplate<T> x( s.w, s.h, s.c, s.a ); }, "a row size beyond 32 bits" );
                    } );
                    add( n + ".generate(" + std::to_string( s.w ) + "," + std::to_string( s.h ) + ")", N, [=]( W & w ) {
                        mustThrow<T>( [&] { w.im[i]->generate( s.w, s.h, s.c, s.a ); }, "a row size beyond 32 bits" );
                    } );
                }
                // representable row size, but more memory than exists
                add( n + ".resize(0xFFFFFFFF,0xFFFFFFFF)", i, [=]( W & w ) {
                    w.im[i]->setColorCount( 1 );
                    w.im[i]->setAlignment( 1 );
                    mustThrow<T>( [&] { w.im[i]->resize( 0xFFFFFFFFu, 0xFFFFFFFFu ); }, "an image of 2^64 bytes" );
                    w.adopt( i );
                } );
                add( n + " := constructed(3,2,3,4)", i, [=]( W & w ) {
                    ImageTemplate<T> * made = nullptr;
                    call( [&] { made = new ImageTemplate<T>( 3, 2, 3, 4 ); } );
                    delete w.im[i];
                    w.im[i] = made;
                    w.m[i] = Model<T>();
                    w.m[i].c = 3;
                    w.m[i].a = 4;
                    w.m[i].size( 3, 2 );
                    w.scribble( i );
                } );
            }
            add( n + " := image of another type", i, [=]( W & w ) {
                delete w.im[i];
                w.im[i] = nullptr;
                w.im[i] = new OtherImage<T>();
                w.m[i] = Model<T>();
                w.m[i].type = OTHER_TYPE;
            } );
        }
        return ops;
    }

    template <class T>
    void step( World<T> & w, const Op<T> & op, int64_t fault )
    {
        phase( "%s", op.name.c_str() );
        ++ctx().calls;
        failing = fault;
        reachedFault = false;
        try {
            op.run( w );
            failing = -1;
        }
        catch ( const std::bad_alloc & ) {
            failing = -1;
            if ( !reachedFault )
                fail( "the operation failed although memory is available" );
            if ( op.target < N )
                w.adopt( op.target );
            if ( op.target2 < N )
                w.adopt( op.target2 );
        }
        catch ( const std::exception & e ) {
            fail( "the operation threw: %s", e.what() );
        }
        w.verify();
    }

    template <class T>
    void explore( const std::vector<Op<T>> & ops, std::vector<size_t> & steps, size_t depth )
    {
        if ( depth > 0 ) {
            for ( size_t i = 0; i < ops.size(); ++i ) {
                steps.push_back( i );
                explore( ops, steps, depth - 1 );
                steps.pop_back();
            }
            return;
        }
        std::string all;
        for ( size_t s : steps )
            all += ops[s].name + "; ";
        snprintf( ctx().text, sizeof ctx().text, "%s %s", sizeof( T ) == 1 ? "8-bit" : "16-bit", all.c_str() );
        ++ctx().cases;
        {
            World<T> w;
            for ( size_t s : steps )
                step( w, ops[s], -1 );
            phase( "destruction" );
        }
        if ( !otherMemory.empty() )
            fail( "memory of an image of another type was not released" );
    }

    // one failing heap request in the last operation, then every image is used again
    template <class T>
    void faults( const std::vector<Op<T>> & ops, const std::vector<size_t> & steps )
    {
        std::string all;
        for ( size_t s : steps )
            all += ops[s].name + "; ";
        for ( int64_t n = 1; n < 20; ++n ) {
            snprintf( ctx().text, sizeof ctx().text, "%s %s with heap request %d failing", sizeof( T ) == 1 ? "8-bit" : "16-bit", all.c_str(), int( n ) );
            bool reached;
            {
                World<T> w;
                for ( size_t k = 0; k + 1 < steps.size(); ++k )
                    step( w, ops[steps[k]], -1 );
                step( w, ops[steps.back()], n );
                reached = reachedFault;
                for ( const Op<T> & op : ops )
                    step( w, op, -1 );
            }
            if ( !reached )
                break;
        }
    }

    template <class T>
    void all( bool arena )
    {
        const bool deep = ctx().thorough;
        const std::vector<Op<T>> big = operations<T>( false ), small = operations<T>( true );
        const char * name = sizeof( T ) == 1 ? "8-bit" : "16-bit";
        // all operations
        for ( size_t i = 0; i < big.size(); ++i ) {
            if ( !next() )
                continue;
            label( "%s images%s, all operations after %s", name, arena ? " in the preallocated memory" : "", big[i].name.c_str() );
            for ( size_t depth = 0; depth <= ( deep ? 2u : 1u ); ++depth ) {
                std::vector<size_t> steps( 1, i );
                explore( big, steps, depth );
            }
            for ( size_t j = 0; j < big.size(); ++j )
                faults( big, std::vector<size_t>{ i, j } );
        }
        // deep sequences of the basic operations
        for ( size_t i = 0; i < small.size(); ++i )
            for ( size_t j = 0; j < small.size(); ++j ) {
                if ( !next() )
                    continue;
                label( "%s images%s, sequences after %s; %s", name, arena ? " in the preallocated memory" : "", small[i].name.c_str(), small[j].name.c_str() );
                std::vector<size_t> steps = { i, j };
                explore( small, steps, deep ? 3 : ( arena == ( sizeof( T ) == 2 ) ? 2 : 1 ) );
            }
    }
}

int main( int argc, char ** argv )
{
    init( argc, argv );
    all<uint8_t>( false );
    all<uint16_t>( false );
    cpu_Memory::MemoryAllocator::instance().reserve( 64 );
    all<uint8_t>( true );
    all<uint16_t>( true );
    finish();
    return 0;
}
