// C20: edge detection against a line by line definition of transitions.
#include "edge_detection.h"
#include "penguinv_exception.h"
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>

using namespace vp;
using penguinV::Image;

namespace
{
    typedef EdgeParameter P;
    typedef std::vector<int> Line;

    // one rising transition of a line
    struct Transition
    {
        double position;
    };

    // Rising transitions of a line, by definition: the gradient g(k) = v(k+1) - v(k) has a positive maximum at k or k + 1 (a zero crossing of its change between
    // k and k + 1). The transition extends to the nearest positions at both sides where the gradient falls below a half (else below a third) of the maximum
    // before a higher gradient appears. It counts if the brightness range over its extent reaches the contrast and, when requested, the mean of the pixels at
    // its right side exceeds the mean at its left side by the contrast.
    std::vector<double> rising( const Line & v, int64_t contrast, uint64_t left, uint64_t right )
    {
        const int64_t n = int64_t( v.size() );
        auto g = [&]( int64_t k ) { return int64_t( v[size_t( k + 1 )] ) - v[size_t( k )]; }; // 0 .. n - 2
        auto change = [&]( int64_t k ) { return g( k ) - g( k - 1 ); }; // 1 .. n - 2
        std::vector<double> out;
        for ( int64_t k = 1; k + 1 <= n - 2; ++k ) {
            const int64_t before = change( k ), after = change( k + 1 );
            const int64_t top = std::max( g( k ), g( k + 1 ) );
            if ( !( before >= 0 && after <= 0 && top > 0 ) )
                continue;
            // foot of the transition: first position from start in direction step with a gradient below the limit, before a gradient above the maximum
            auto foot = [&]( int64_t start, int64_t step, int64_t divisor ) -> int64_t {
                const int64_t limit = std::max<int64_t>( 1, top / divisor );
                for ( int64_t j = start; j >= 0 && j <= n - 2; j += step ) {
                    if ( g( j ) < limit )
                        return j;
                    if ( g( j ) > top )
                        break;
                }
                return -1;
            };
            bool found = false;
            for ( int64_t divisor = 2; divisor <= 3 && !found; ++divisor ) {
                const int64_t from = foot( k, -1, divisor ), to = foot( k + 1, 1, divisor );
                if ( from < 0 || to < 0 )
                    continue;
                const auto range = std::minmax_element( v.begin() + from, v.begin() + to + 1 );
                if ( *range.second - *range.first < contrast )
                    continue;
                if ( left > 0 && right > 0 ) {
                    if ( left > uint64_t( k ) || uint64_t( k ) + right >= uint64_t( n ) )
                        continue;
                    int64_t dark = 0, bright = 0;
                    for ( int64_t j = k - int64_t( left ); j <= k; ++j )
                        dark += v[size_t( j )];
                    for ( int64_t j = k + 1; j <= k + int64_t( right ); ++j )
                        bright += v[size_t( j )];
                    // compare the means exactly
                    if ( bright * int64_t( left + 1 ) - dark * int64_t( right ) < contrast * int64_t( left + 1 ) * int64_t( right ) )
                        continue;
                }
                found = true;
            }
            if ( found )
                out.push_back( before == after ? double( k ) + 0.5 : double( k ) + double( before ) / double( before - after ) );
        }
        // transitions closer than a pixel to the previous one are the same transition
        std::vector<double> distinct;
        for ( double p : out )
            if ( distinct.empty() || p - distinct.back() >= 1.0 )
                distinct.push_back( p );
        return distinct;
    }

    struct Point
    {
        double x, y;
    };
    typedef std::vector<Point> Points;

    // the expected result; the region is given as a function of scanned line and position within the line
    void expected( const std::function<int( uint32_t, uint32_t )> & pixel, uint32_t x, uint32_t y, uint32_t w, uint32_t h, const P & p, Points & positive, Points & negative )
    {
        positive.clear();
        negative.clear();
        const bool horizontal = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::RIGHT_TO_LEFT;
        const bool forward = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::TOP_TO_BOTTOM;
        const uint64_t length = horizontal ? w : h, lines = horizontal ? h : w;
        if ( length < 4 )
            return;
        for ( uint64_t line = 0; line + p.groupFactor <= lines; line += p.skipFactor ) {
            Line v( length, 0 );
            for ( uint64_t i = 0; i < length; ++i )
                for ( uint32_t g = 0; g < p.groupFactor; ++g ) {
                    const uint32_t across = uint32_t( line + g ), along = uint32_t( forward ? i : length - 1 - i );
                    v[i] += horizontal ? pixel( x + along, y + across ) : pixel( x + across, y + along );
                }
            const int64_t contrast = int64_t( p.minimumContrast ) * p.groupFactor;
            // positions are counted in the direction of scanning
            std::vector<double> up = rising( v, contrast, p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset );
            std::vector<double> down;
            std::reverse( v.begin(), v.end() );
            for ( double d : rising( v, contrast, p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset ) )
                down.push_back( double( length - 1 ) - d );
            auto select = [&]( std::vector<double> & e ) {
                if ( e.size() < 2 || p.edge == P::EdgeType::ALL )
                    return;
                const double first = *std::min_element( e.begin(), e.end() ), last = *std::max_element( e.begin(), e.end() );
                e.assign( 1, p.edge == P::EdgeType::FIRST ? first : last );
            };
            select( up );
            select( down );
            auto put = [&]( const std::vector<double> & e, Points & to ) {
                for ( double d : e ) {
                    const double along = forward ? d : double( length - 1 ) - d;
                    const double across = double( line ) + ( double( p.groupFactor ) - 1 ) / 2;
                    to.push_back( horizontal ? Point{ x + along, y + across } : Point{ x + across, y + along } );
                }
            };
            if ( p.gradient != P::GradientType::NEGATIVE )
                put( up, positive );
            if ( p.gradient != P::GradientType::POSITIVE )
                put( down, negative );
        }
    }

    std::string show( const Points & p )
    {
        std::string s;
        char b[64];
        for ( size_t i = 0; i < p.size() && i < 8; ++i ) {
            snprintf( b, sizeof b, " (%g %g)", p[i].x, p[i].y );
            s += b;
        }
        return s + ( p.size() > 8 ? " .." : "" );
    }

    template <typename T>
    Points points( const std::vector<PointBase2D<T>> & e )
    {
        Points p;
        for ( const auto & q : e )
            p.push_back( Point{ double( q.x ), double( q.y ) } );
        return p;
    }

    // the order of the points within a line is not prescribed, lines are in order
    void compare( Points actual, Points wanted, bool horizontal, double tolerance, const char * what )
    {
        auto less = [&]( const Point & a, const Point & b ) { return horizontal ? ( a.y != b.y ? a.y < b.y : a.x < b.x ) : ( a.x != b.x ? a.x < b.x : a.y < b.y ); };
        auto lineOrder = [&]( const Point & a, const Point & b ) { return horizontal ? a.y < b.y : a.x < b.x; };
        ++ctx().compared;
        if ( !std::is_sorted( actual.begin(), actual.end(), lineOrder ) )
            fail( "%s: edges are not in the order of lines:%s", what, show( actual ).c_str() );
        std::sort( actual.begin(), actual.end(), less );
        std::sort( wanted.begin(), wanted.end(), less );
        bool same = actual.size() == wanted.size();
        for ( size_t i = 0; same && i < actual.size(); ++i )
            same = std::fabs( actual[i].x - wanted[i].x ) <= tolerance && std::fabs( actual[i].y - wanted[i].y ) <= tolerance;
        if ( !same ) {
            // only the lines which differ
            for ( size_t i = 0; i < std::max( actual.size(), wanted.size() ); ++i ) {
                const Point * a = i < actual.size() ? &actual[i] : nullptr;
                const Point * b = i < wanted.size() ? &wanted[i] : nullptr;
                if ( !a || !b || std::fabs( a->x - b->x ) > tolerance || std::fabs( a->y - b->y ) > tolerance )
                    fail( "%s edges differ from number %zu on: found %zu:%s expected %zu:%s", what, i, actual.size(),
                          show( Points( actual.begin() + long( std::min( i, actual.size() ) ), actual.end() ) ).c_str(), wanted.size(),
                          show( Points( wanted.begin() + long( std::min( i, wanted.size() ) ), wanted.end() ) ).c_str() );
            }
        }
    }

    std::string describe( const P & p )
    {
        static const char * const direction[] = { "left to right", "right to left", "top to bottom", "bottom to top" };
        static const char * const gradient[] = { "positive", "negative", "any" };
        static const char * const edge[] = { "first", "last", "all" };
        char b[200];
        snprintf( b, sizeof b, "%s, %s, %s, group %u, skip %u, check %u %u, contrast %u", direction[int( p.direction )], gradient[int( p.gradient )], edge[int( p.edge )], p.groupFactor,
                  p.skipFactor, p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset, p.minimumContrast );
        return b;
    }

    template <typename T>
    EdgeDetectionBase<T> alreadyUsed()
    {
        Image image( 9, 1 );
        for ( uint32_t x = 0; x < 9; ++x )
            image.data()[x] = x >= 3 && x < 6 ? 200 : 10;
        EdgeDetectionBase<T> d;
        d.find( image );
        return d;
    }

    template <typename T>
    void detect( const Image & image, uint32_t x, uint32_t y, uint32_t w, uint32_t h, const P & p, const Points & positive, const Points & negative )
    {
        const bool horizontal = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::RIGHT_TO_LEFT;
        static const EdgeDetectionBase<T> used = alreadyUsed<T>(); // results of an earlier search must disappear
        EdgeDetectionBase<T> d( used );
        if ( x == 0 && y == 0 && w == image.width() && h == image.height() )
            d.find( image, p );
        else
            d.find( image, x, y, w, h, p );
        ++ctx().calls;
        const double tolerance = sizeof( T ) == 4 ? 1e-4 * ( 1 + x + y + w + h ) / 8 : 1e-9;
        compare( points( d.positiveEdge() ), positive, horizontal, tolerance, "positive" );
        compare( points( d.negativeEdge() ), negative, horizontal, tolerance, "negative" );
    }

    void check( const Image & image, uint32_t x, uint32_t y, uint32_t w, uint32_t h, const P & p )
    {
        phase( "%s", describe( p ).c_str() );
        const uint32_t rowSize = image.rowSize();
        const uint8_t * data = image.data();
        auto pixel = [&]( uint32_t px, uint32_t py ) { return int( data[size_t( py ) * rowSize + px] ); };
        Points positive, negative;
        expected( pixel, x, y, w, h, p, positive, negative );
        detect<double>( image, x, y, w, h, p, positive, negative );
        detect<float>( image, x, y, w, h, p, positive, negative );
    }

    const P::DirectionType directions[] = { P::DirectionType::LEFT_TO_RIGHT, P::DirectionType::RIGHT_TO_LEFT, P::DirectionType::TOP_TO_BOTTOM, P::DirectionType::BOTTOM_TO_TOP };
    const P::GradientType gradients[] = { P::GradientType::POSITIVE, P::GradientType::NEGATIVE, P::GradientType::ANY };
    const P::EdgeType edges[] = { P::EdgeType::FIRST, P::EdgeType::LAST, P::EdgeType::ALL };

    void eachMode( const std::function<void( P & )> & f )
    {
        for ( auto d : directions )
            for ( auto g : gradients )
                for ( auto e : edges ) {
                    P p( d, g, e );
                    f( p );
                }
    }

    // all lines of a length over an alphabet, as rows (or columns) of one image per value of the leading pixels
    void lines( uint32_t length, const std::vector<uint8_t> & alphabet, const std::vector<P> & parameters )
    {
        const size_t k = alphabet.size();
        const uint32_t low = std::min<uint32_t>( 4, length ); // these vary within the image
        uint64_t rows = 1, images = 1;
        for ( uint32_t i = 0; i < length; ++i )
            ( i < low ? rows : images ) *= k;
        for ( uint64_t n = 0; n < images; ++n ) {
            if ( !next() )
                continue;
            label( "all lines of %u pixels over %zu values, ending %llu", length, k, (unsigned long long)n );
            Image across( length, uint32_t( rows ) ), along( uint32_t( rows ), length );
            for ( uint64_t r = 0; r < rows; ++r ) {
                uint64_t a = r, b = n;
                for ( uint32_t i = 0; i < length; ++i ) {
                    uint64_t & c = i < low ? a : b;
                    across.data()[r * across.rowSize() + i] = along.data()[i * along.rowSize() + r] = alphabet[size_t( c % k )];
                    c /= k;
                }
            }
            for ( const P & p : parameters ) {
                const bool horizontal = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::RIGHT_TO_LEFT;
                const Image & im = horizontal ? across : along;
                check( im, 0, 0, im.width(), im.height(), p );
            }
        }
    }

    const uint32_t big = 0xFFFFFFFFu;

    void all()
    {
        const bool thorough = ctx().thorough;
        std::vector<P> modes;
        eachMode( [&]( P & p ) { modes.push_back( p ); } );
        // default contrast, all modes
        for ( uint32_t length = 1; length <= ( thorough ? 7u : 6u ); ++length )
            lines( length, { 0, 9, 10, 30, 255 }, modes );
        lines( thorough ? 9 : 8, { 0, 12, 40 }, modes );
        lines( thorough ? 12 : 11, { 0, 200 }, modes );
        // contrast checks
        std::vector<P> checks;
        for ( auto d : directions )
            for ( uint32_t l : { 0u, 1u, 2u, 3u, 5u, 6u, big - 1, big } )
                for ( uint32_t r : { 0u, 1u, 2u, 3u, 4u, 5u, 6u, big - 5, big - 3, big - 2, big - 1, big } )
                    if ( thorough || d == P::DirectionType::LEFT_TO_RIGHT || ( l + r ) % 3 == uint32_t( d ) % 3 )
                        for ( uint8_t contrast : { uint8_t( 1 ), uint8_t( 5 ), uint8_t( 60 ), uint8_t( 255 ) } )
                            checks.push_back( P( d, P::GradientType::ANY, P::EdgeType::ALL, 1, 1, l, r, contrast ) );
        lines( 6, { 0, 5, 60, 255 }, checks );
        if ( thorough )
            lines( 7, { 0, 5, 60, 255 }, checks );
        // all gradients: lines with steps out of a wide set of heights
        std::vector<P> contrasts;
        for ( auto d : directions )
            for ( uint32_t c : { 1u, 2u, 3u, 10u, 128u, 254u, 255u } )
                contrasts.push_back( P( d, P::GradientType::ANY, P::EdgeType::ALL, 1, 1, 0, 0, uint8_t( c ) ) );
        lines( 5, { 0, 1, 2, 3, 6, 10, 100, 255 }, contrasts );
        if ( thorough )
            lines( 6, { 0, 1, 2, 3, 6, 10, 100, 255 }, contrasts );

        // groups and skipped lines; regions at every place of a bigger image; row paddings
        const uint8_t values[] = { 0, 20, 255, 90 };
        for ( uint32_t w = 1; w <= 6; ++w )
            for ( uint32_t h = 1; h <= 6; ++h )
                for ( uint32_t place = 0; place < 4; ++place )
                    for ( uint32_t pattern = 0; pattern < ( thorough ? 40u : 12u ); ++pattern ) {
                        if ( !next() )
                            continue;
                        const uint32_t x = ( place & 1 ) ? 3 : 0, y = ( place & 2 ) ? 2 : 0;
                        label( "region %ux%u at %u,%u, pattern %u", w, h, x, y, pattern );
                        Image im( x + w + ( place ? pattern % 3 : 0 ), y + h + ( place ? pattern / 3 % 2 : 0 ), 1, uint8_t( 1 + pattern % 5 ) );
                        uint32_t state = pattern * 7919 + w * 31 + h;
                        for ( uint32_t i = 0; i < im.rowSize() * im.height(); ++i ) {
                            state = state * 1664525 + 1013904223;
                            im.data()[i] = values[state >> 30];
                        }
                        for ( const P & mode : modes ) {
                            if ( !thorough && mode.gradient != P::GradientType::ANY )
                                continue;
                            for ( uint32_t group : { 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 0x80000000u, big } )
                                for ( uint32_t skip : { 1u, 2u, 3u, 6u, 7u, 0x80000000u, big } ) {
                                    P p = mode;
                                    p.groupFactor = group;
                                    p.skipFactor = skip;
                                    if ( pattern % 2 )
                                        p.contrastCheckLeftSideOffset = p.contrastCheckRightSideOffset = 1;
                                    check( im, x, y, w, h, p );
                                }
                        }
                    }
        // all images of two lines with groups
        for ( uint32_t n = 0; n < 6561; n += 27 ) {
            if ( !next() )
                continue;
            label( "all pairs of lines %u", n );
            for ( uint32_t k = n; k < n + 27; ++k ) {
                const uint8_t v[] = { 0, 35, 130 };
                Image a( 4, 2 ), b( 2, 4 );
                uint32_t c = k;
                for ( uint32_t i = 0; i < 8; ++i, c /= 3 )
                    a.data()[i / 4 * a.rowSize() + i % 4] = b.data()[i % 4 * b.rowSize() + i / 4] = v[c % 3];
                for ( auto d : directions )
                    for ( uint32_t contrast : { 1u, 35u, 66u, 100u, 130u, 131u, 255u } ) {
                        const bool horizontal = d == P::DirectionType::LEFT_TO_RIGHT || d == P::DirectionType::RIGHT_TO_LEFT;
                        check( horizontal ? a : b, 0, 0, horizontal ? 4 : 2, horizontal ? 2 : 4, P( d, P::GradientType::ANY, P::EdgeType::ALL, 2, 1, 0, 0, uint8_t( contrast ) ) );
                    }
            }
        }
        // long lines
        for ( uint32_t length : { 16u, 33u, 64u, 1000u } ) {
            if ( !next() )
                continue;
            label( "long lines of %u pixels", length );
            const uint32_t count = 24;
            Image across( length, count ), along( count, length );
            for ( uint32_t r = 0; r < count; ++r )
                for ( uint32_t i = 0; i < length; ++i ) {
                    const double t = double( i ) / ( 1.5 + r );
                    across.data()[r * across.rowSize() + i] = along.data()[i * along.rowSize() + r] = uint8_t( r < 8 ? 127 + 127 * std::sin( t ) : r < 16 ? ( i * ( r - 7 ) ) & 255 : ( ( i / ( r - 14 ) ) & 1 ) * 200 + i % 3 );
                }
            for ( const P & mode : modes )
                for ( uint32_t offset : { 0u, 1u, 4u, length / 2, length } ) {
                    P p = mode;
                    p.contrastCheckLeftSideOffset = offset;
                    p.contrastCheckRightSideOffset = offset;
                    const bool horizontal = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::RIGHT_TO_LEFT;
                    const Image & im = horizontal ? across : along;
                    check( im, 0, 0, im.width(), im.height(), p );
                }
        }
        // sizes, positions and sums beyond 8 and 16 bits
        const std::pair<uint32_t, uint32_t> bigs[] = { { 70001, 3 }, { 3, 70001 }, { 40, 700 }, { 700, 40 }, { 70001, 6 }, { 6, 70001 } };
        for ( const auto & size : bigs )
            for ( const P & mode : modes ) {
                if ( !next() )
                    continue;
                const uint32_t w = size.first, h = size.second;
                label( "big image %ux%u, %s", w, h, describe( mode ).c_str() );
                Image im( w, h );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x ) {
                        const uint32_t n = std::min( w, h ) > 20 ? ( w > h ? x * 40 / w + y / 20 * 3 : y * 40 / h + x / 20 * 3 ) : x + y; // groups see the same edges
                        im.data()[size_t( y ) * im.rowSize() + x] = uint8_t( ( w > 1000 || h > 1000 ) ? ( n / 9000 % 2 ? 255 : 3 ) : ( ( w > h ? y : x ) / 7 % 2 ? 255 : n % 3 ) );
                    }
                const bool horizontal = mode.direction == P::DirectionType::LEFT_TO_RIGHT || mode.direction == P::DirectionType::RIGHT_TO_LEFT;
                const uint32_t lines = horizontal ? h : w, length = horizontal ? w : h;
                for ( uint32_t group : { 1u, 2u, 255u, 256u, 257u, 300u, 650u } )
                    for ( uint32_t skip : { 1u, 100u, 256u, 30000u, 65536u } ) {
                        if ( group > lines || ( group > 2 && lines > 1000 ) || ( lines / skip ) * group > 3000 )
                            continue;
                        for ( uint32_t offset : { 0u, 2u, 300u, 8000u } ) {
                            if ( offset * 2 > length )
                                continue;
                            P p = mode;
                            p.groupFactor = group;
                            p.skipFactor = skip;
                            p.contrastCheckLeftSideOffset = p.contrastCheckRightSideOffset = offset;
                            check( im, 0, 0, w, h, p );
                            if ( offset == 0 && w > 4 && h > 4 )
                                check( im, w > h ? w - 9 : 1, w > h ? 1 : h - 9, w > h ? 9 : w - 1, w > h ? h - 1 : 9, p );
                        }
                    }
            }
        // refused parameters; results of the previous call are not mixed with new ones
        for ( uint32_t n = 0; n < 9; ++n ) {
            if ( !next() )
                continue;
            label( "invalid argument %u", n );
            Image im( 6, 5, n == 0 ? 3 : 1 ), good( 6, 5 );
            good.fill( 0 );
            for ( uint32_t y = 0; y < 5; ++y )
                for ( uint32_t x = 3; x < 6; ++x )
                    good.data()[y * good.rowSize() + x] = 200;
            im.fill( 0 );
            if ( n == 8 )
                im.clear();
            P p;
            uint32_t x = 0, y = 0, w = 6, h = 5;
            if ( n == 1 )
                p.groupFactor = 0;
            if ( n == 2 )
                p.skipFactor = 0;
            if ( n == 3 )
                p.minimumContrast = 0;
            if ( n == 4 )
                w = 7;
            if ( n == 5 )
                h = 0;
            if ( n == 6 )
                x = big - 2;
            if ( n == 7 )
                y = 1;
            EdgeDetection d;
            d.find( good );
            if ( d.positiveEdge().size() != 5 || !d.negativeEdge().empty() )
                fail( "a step is not found in every line" );
            bool refused = false;
            try {
                d.find( im, x, y, w, h, p );
            }
            catch ( const penguinVException & ) {
                refused = true;
            }
            ++ctx().calls;
            ++ctx().refused;
            ++ctx().compared;
            if ( !refused )
                fail( "was not refused" );
            d.find( good );
            if ( d.positiveEdge().size() != 5 || !d.negativeEdge().empty() )
                fail( "results of two calls are mixed" );
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    all();
    vp::finish();
    return 0;
}
