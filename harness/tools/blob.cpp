// C18: blob detection finds exactly the 8-connected components; C19: measures, filters, sorting and best blob.
#include "blob_detection.h"
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>

using namespace vp;
using penguinV::Image;
using namespace Blob_Detection;

namespace
{
    typedef std::pair<uint32_t, uint32_t> Pt; // y, x: the order of scanning
    typedef std::vector<Pt> Pts;

    struct Reference
    {
        Pts points, edge, contour;
        bool operator<( const Reference & r ) const
        {
            return points < r.points;
        }
    };

    // components of a bitmap, independent of the library: flood fill with explicit coordinates
    std::vector<Reference> components( const std::vector<uint8_t> & bits, int w, int h )
    {
        std::vector<int> id( bits.size(), -1 );
        std::vector<Reference> out;
        auto at = [&]( int x, int y ) { return x >= 0 && y >= 0 && x < w && y < h && bits[size_t( y * w + x )]; };
        for ( int sy = 0; sy < h; ++sy )
            for ( int sx = 0; sx < w; ++sx ) {
                if ( !at( sx, sy ) || id[size_t( sy * w + sx )] >= 0 )
                    continue;
                const int n = int( out.size() );
                out.push_back( Reference() );
                std::vector<std::pair<int, int>> stack( 1, std::make_pair( sx, sy ) );
                id[size_t( sy * w + sx )] = n;
                while ( !stack.empty() ) {
                    const int x = stack.back().first, y = stack.back().second;
                    stack.pop_back();
                    out.back().points.push_back( Pt( y, x ) );
                    for ( int dy = -1; dy <= 1; ++dy )
                        for ( int dx = -1; dx <= 1; ++dx )
                            if ( at( x + dx, y + dy ) && id[size_t( ( y + dy ) * w + x + dx )] < 0 ) {
                                id[size_t( ( y + dy ) * w + x + dx )] = n;
                                stack.push_back( std::make_pair( x + dx, y + dy ) );
                            }
                }
                std::sort( out.back().points.begin(), out.back().points.end() );
            }
        // boundary pixels: a neighbour is not set; contour: boundary pixels connected with the outer boundary
        for ( size_t n = 0; n < out.size(); ++n ) {
            Reference & r = out[n];
            for ( const Pt & p : r.points ) {
                bool full = true;
                for ( int dy = -1; dy <= 1; ++dy )
                    for ( int dx = -1; dx <= 1; ++dx )
                        full = full && at( int( p.second ) + dx, int( p.first ) + dy );
                if ( !full )
                    r.edge.push_back( p );
            }
            // the outside of this component: everything reachable from the frame by 4-connected steps
            const int fw = w + 2, fh = h + 2;
            std::vector<uint8_t> outside( size_t( fw * fh ), 0 );
            std::vector<std::pair<int, int>> stack( 1, std::make_pair( 0, 0 ) );
            outside[0] = 1;
            auto own = [&]( int x, int y ) { return x >= 1 && y >= 1 && x <= w && y <= h && id[size_t( ( y - 1 ) * w + x - 1 )] == int( n ); };
            while ( !stack.empty() ) {
                const int x = stack.back().first, y = stack.back().second;
                stack.pop_back();
                const int d[4][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } };
                for ( auto & k : d ) {
                    const int xx = x + k[0], yy = y + k[1];
                    if ( xx < 0 || yy < 0 || xx >= fw || yy >= fh || outside[size_t( yy * fw + xx )] || own( xx, yy ) )
                        continue;
                    outside[size_t( yy * fw + xx )] = 1;
                    stack.push_back( std::make_pair( xx, yy ) );
                }
            }
            std::vector<uint8_t> isEdge( size_t( fw * fh ), 0 );
            for ( const Pt & p : r.edge )
                isEdge[( p.first + 1 ) * size_t( fw ) + p.second + 1] = 1;
            for ( const Pt & p : r.edge ) {
                const int x = int( p.second ) + 1, y = int( p.first ) + 1;
                if ( isEdge[size_t( y * fw + x )] == 1
                     && ( outside[size_t( y * fw + x + 1 )] || outside[size_t( y * fw + x - 1 )] || outside[size_t( ( y + 1 ) * fw + x )] || outside[size_t( ( y - 1 ) * fw + x )] ) ) {
                    isEdge[size_t( y * fw + x )] = 2;
                    stack.push_back( std::make_pair( x, y ) );
                }
            }
            while ( !stack.empty() ) {
                const int x = stack.back().first, y = stack.back().second;
                stack.pop_back();
                r.contour.push_back( Pt( uint32_t( y - 1 ), uint32_t( x - 1 ) ) );
                for ( int dy = -1; dy <= 1; ++dy )
                    for ( int dx = -1; dx <= 1; ++dx )
                        if ( isEdge[size_t( ( y + dy ) * fw + x + dx )] == 1 ) {
                            isEdge[size_t( ( y + dy ) * fw + x + dx )] = 2;
                            stack.push_back( std::make_pair( x + dx, y + dy ) );
                        }
            }
            std::sort( r.contour.begin(), r.contour.end() );
        }
        std::sort( out.begin(), out.end() );
        return out;
    }

    Pts sorted( const std::vector<uint32_t> & x, const std::vector<uint32_t> & y, uint32_t ox, uint32_t oy )
    {
        if ( x.size() != y.size() )
            fail( "%zu horizontal and %zu vertical positions", x.size(), y.size() );
        Pts p;
        for ( size_t i = 0; i < x.size() && i < y.size(); ++i ) {
            if ( x[i] < ox || y[i] < oy )
                fail( "point %u,%u is not in the region", x[i], y[i] );
            p.push_back( Pt( y[i] - oy, x[i] - ox ) );
        }
        std::sort( p.begin(), p.end() );
        return p;
    }

    std::string picture( const std::vector<uint8_t> & bits, int w, int h )
    {
        std::string s;
        for ( int y = 0; y < h && s.size() < 400; ++y ) {
            for ( int x = 0; x < w; ++x )
                s += bits[size_t( y * w + x )] ? '#' : '.';
            s += y + 1 < h ? "/" : "";
        }
        return s;
    }

    void compare( const std::vector<BlobInfo> & blobs, const std::vector<Reference> & ref, uint32_t ox, uint32_t oy )
    {
        ++ctx().compared;
        if ( blobs.size() != ref.size() )
            fail( "%zu blobs found, expected %zu", blobs.size(), ref.size() );
        std::vector<Reference> got;
        for ( const BlobInfo & b : blobs ) {
            Reference r;
            r.points = sorted( b.pointX(), b.pointY(), ox, oy );
            r.edge = sorted( b.edgeX(), b.edgeY(), ox, oy );
            r.contour = sorted( b.contourX(), b.contourY(), ox, oy );
            if ( b.size() != r.points.size() )
                fail( "size %zu of a blob with %zu points", b.size(), r.points.size() );
            if ( b.isSolid() != ( r.edge.size() == r.contour.size() ) )
                fail( "wrong answer to whether the blob is solid" );
            got.push_back( r );
        }
        std::sort( got.begin(), got.end() );
        for ( size_t i = 0; i < ref.size() && i < got.size(); ++i ) {
            if ( got[i].points != ref[i].points )
                fail( "blob starting at %u,%u has other points than the connected component", ref[i].points[0].second, ref[i].points[0].first );
            else if ( got[i].edge != ref[i].edge )
                fail( "blob starting at %u,%u has %zu edge points, expected %zu or others", ref[i].points[0].second, ref[i].points[0].first, got[i].edge.size(), ref[i].edge.size() );
            else if ( got[i].contour != ref[i].contour )
                fail( "blob starting at %u,%u has %zu contour points, expected %zu or others", ref[i].points[0].second, ref[i].points[0].first, got[i].contour.size(),
                      ref[i].contour.size() );
        }
    }

    void draw( Image & im, const std::vector<uint8_t> & bits, uint32_t w, uint32_t h, uint32_t ox, uint32_t oy, uint8_t low, uint8_t high )
    {
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x )
                im.data()[( y + oy ) * im.rowSize() + x + ox] = bits[y * w + x] ? high : low;
    }

    std::vector<uint8_t> bitsOf( uint64_t v, uint32_t n )
    {
        std::vector<uint8_t> b( n );
        for ( uint32_t i = 0; i < n; ++i )
            b[i] = ( v >> i ) & 1;
        return b;
    }

    // larger shapes of which all rotations and offsets are tried
    std::vector<std::pair<std::vector<std::string>, const char *>> shapes()
    {
        std::vector<std::pair<std::vector<std::string>, const char *>> s;
        auto add = [&]( const char * name, std::vector<std::string> v ) { s.push_back( std::make_pair( v, name ) ); };
        add( "spiral", { "###########", "..........#", "#########.#", "#.......#.#", "#.#####.#.#", "#.#...#.#.#", "#.#.###.#.#", "#.#.....#.#", "#.#######.#", "#.........#", "###########" } );
        add( "rings", { "#############", "#...........#", "#.#########.#", "#.#.......#.#", "#.#.#####.#.#", "#.#.#...#.#.#", "#.#.#.#.#.#.#", "#.#.#...#.#.#", "#.#.#####.#.#", "#.#.......#.#",
                        "#.#########.#", "#...........#", "#############" } );
        add( "thick ring", { "##############", "##############", "##############", "###........###", "###........###", "###..####..###", "###..####..###", "###........###", "###........###",
                             "##############", "##############", "##############" } );
        add( "very thick ring", { "############", "############", "############", "############", "####....####", "####....####", "####....####", "############", "############", "############",
                                  "############" } );
        add( "comb", { "#.#.#.#.#.#.#", "#.#.#.#.#.#.#", "#.#.#.#.#.#.#", "#############" } );
        add( "inverted comb", { "#############", "#.#.#.#.#.#.#", "#.#.#.#.#.#.#", "#.#.#.#.#.#.#" } );
        add( "diagonals", { "#.....#....", ".#...#.#...", "..#.#...#..", "...#.....#.", "..#.#.....#", ".#...#...#.", "#.....#.#..", ".......#..." } );
        add( "chessboard", { "#.#.#.#.", ".#.#.#.#", "#.#.#.#.", ".#.#.#.#", "#.#.#.#." } );
        add( "two holes", { "..........", ".########.", ".########.", ".##.##.##.", ".########.", ".########.", ".########.", "..........", "..######..", "....##...." } );
        add( "solid", { "#########", "#########", "#########", "#########", "#########", "#########", "#########" } );
        add( "diagonal gap", { "########", "########", "##...###", "##...###", "##...###", "#####.##", "######.#", "#######." } );
        add( "zigzag", { "#..............", ".#.#.#.#.#.#.#.", "..#.#.#.#.#.#.#", "...............", "###.###.###.###", "..#.#.#.#.#.#..", "..###.###.###.." } );
        return s;
    }

    void checkFind( const std::vector<uint8_t> & bits, uint32_t w, uint32_t h, const std::vector<Reference> & ref )
    {
        Image im( w, h );
        draw( im, bits, w, h, 0, 0, 0, 255 );
        ++ctx().calls;
        BlobDetection d;
        compare( d.find( im ), ref, 0, 0 );
    }

    void components18()
    {
        struct Size
        {
            uint32_t w, h;
        };
        std::vector<Size> sizes;
        const uint32_t limit = ctx().thorough ? 22 : 16;
        for ( uint32_t w = 1; w <= limit; ++w )
            for ( uint32_t h = 1; h <= limit; ++h )
                if ( w * h <= limit && ( w <= 8 || h <= 2 ) && ( h <= 8 || w <= 2 ) )
                    sizes.push_back( Size{ w, h } );
        if ( !ctx().thorough ) {
            sizes.push_back( Size{ 6, 3 } );
            sizes.push_back( Size{ 3, 6 } );
        }
        for ( const Size & s : sizes ) {
            const uint32_t n = s.w * s.h;
            const uint64_t all = uint64_t( 1 ) << n, block = 256;
            for ( uint64_t from = 0; from < all; from += block ) {
                if ( !next() )
                    continue;
                for ( uint64_t v = from; v < all && v < from + block; ++v ) {
                    const std::vector<uint8_t> bits = bitsOf( v, n );
                    label( "%ux%u %s", s.w, s.h, picture( bits, int( s.w ), int( s.h ) ).c_str() );
                    checkFind( bits, s.w, s.h, components( bits, int( s.w ), int( s.h ) ) );
                }
            }
        }

        // large shapes in all orientations
        for ( auto & sh : shapes() )
            for ( int orientation = 0; orientation < 8; ++orientation )
                for ( int inverse = 0; inverse < 2; ++inverse ) {
                    if ( !next() )
                        continue;
                    const uint32_t sw = uint32_t( sh.first[0].size() ), shh = uint32_t( sh.first.size() );
                    const uint32_t w = orientation & 4 ? shh : sw, h = orientation & 4 ? sw : shh;
                    std::vector<uint8_t> bits( w * h );
                    for ( uint32_t y = 0; y < h; ++y )
                        for ( uint32_t x = 0; x < w; ++x ) {
                            uint32_t a = orientation & 4 ? y : x, b = orientation & 4 ? x : y;
                            if ( orientation & 1 )
                                a = sw - 1 - a;
                            if ( orientation & 2 )
                                b = shh - 1 - b;
                            bits[y * w + x] = ( sh.first[b][a] == '#' ) != ( inverse != 0 );
                        }
                    label( "%s, orientation %d%s", sh.second, orientation, inverse ? ", inverted" : "" );
                    checkFind( bits, w, h, components( bits, int( w ), int( h ) ) );
                }

        // regions: every placement of every 3x3 (or flatter) pattern in an image whose other pixels are all set or all clear; thresholds and values
        const struct
        {
            uint8_t low, high, threshold;
        } levels[] = { { 0, 255, 1 }, { 0, 1, 1 }, { 9, 10, 10 }, { 0, 255, 255 }, { 254, 255, 255 }, { 127, 128, 128 }, { 0, 200, 100 } };
        const Size parts[] = { { 3, 3 }, { 4, 2 }, { 2, 4 }, { 1, 5 }, { 5, 1 }, { 1, 1 } };
        for ( const Size & s : parts )
            for ( uint32_t ox = 0; ox < 4; ++ox )
                for ( uint32_t oy = 0; oy < 4; ++oy )
                    for ( uint32_t right = 0; right < 2; ++right )
                        for ( int outside = 0; outside < 3; ++outside )
                            for ( uint8_t alignment : { uint8_t( 1 ), uint8_t( 8 ) } ) {
                                if ( !next() )
                                    continue;
                                const uint32_t n = s.w * s.h;
                                for ( uint64_t v = 0; v < ( uint64_t( 1 ) << n ); ++v ) {
                                    const std::vector<uint8_t> bits = bitsOf( v, n );
                                    const auto & l = levels[( v + ox + oy ) % 7];
                                    label( "%ux%u %s at %u,%u, %u pixels right and below, other pixels %s, values %u and %u, threshold %u, alignment %u", s.w, s.h,
                                           picture( bits, int( s.w ), int( s.h ) ).c_str(), ox, oy, right, outside == 0 ? "clear" : outside == 1 ? "set" : "mixed", l.low, l.high, l.threshold,
                                           alignment );
                                    Image im( s.w + ox + right, s.h + oy + right, 1, alignment );
                                    for ( uint32_t i = 0; i < im.rowSize() * im.height(); ++i )
                                        im.data()[i] = outside == 0 ? l.low : outside == 1 ? l.high : ( i * 2654435761u >> 13 ) & 1 ? l.high : l.low;
                                    draw( im, bits, s.w, s.h, ox, oy, l.low, l.high );
                                    const std::vector<uint8_t> copy( im.data(), im.data() + im.rowSize() * im.height() );
                                    ++ctx().calls;
                                    BlobDetection d;
                                    compare( d.find( im, ox, oy, s.w, s.h, BlobParameters(), l.threshold ), components( bits, int( s.w ), int( s.h ) ), ox, oy );
                                    if ( !std::equal( copy.begin(), copy.end(), im.data() ) )
                                        fail( "the image changed" );
                                }
                            }

        // several searches with one detector; threshold 0; refused calls keep the result
        // sizes beyond 16 bits
        for ( uint32_t length : { 255u, 256u, 65533u, 65534u, 65535u, 65536u, 70001u } )
            for ( int transpose = 0; transpose < 2; ++transpose )
                for ( uint32_t wide = 1; wide <= 2; ++wide ) {
                    if ( !next() )
                        continue;
                    const uint32_t w = transpose ? wide : length, h = transpose ? length : wide;
                    label( "blobs in %ux%u", w, h );
                    std::vector<uint8_t> bits( size_t( w ) * h );
                    for ( uint32_t k : { 0u, 3u, 4u, 253u, 254u, 255u, 256u, 257u, 65531u, 65533u, 65534u, 65535u, 65536u, 65537u, 70000u } )
                        if ( k < length )
                            bits[size_t( transpose ? k * w + ( k % 2 ) % w : ( k % 2 ) % h * w + k )] = 1;
                    checkFind( bits, w, h, components( bits, int( w ), int( h ) ) );
                }
        if ( next() ) {
            label( "history of one detector" );
            BlobDetection d;
            Image im( 4, 3 );
            for ( uint32_t v = 0; v < 4096; v += 7 ) {
                const std::vector<uint8_t> bits = bitsOf( v, 12 );
                draw( im, bits, 4, 3, 0, 0, 0, 50 );
                ++ctx().calls;
                d.find( im );
                compare( d.get(), components( bits, 4, 3 ), 0, 0 );
                bool refused = false;
                try {
                    d.find( im, 3, 0, 2, 2 );
                }
                catch ( const penguinVException & ) {
                    refused = true;
                }
                if ( !refused )
                    fail( "a region outside of the image was not refused" );
                compare( d(), components( bits, 4, 3 ), 0, 0 );
                ++ctx().calls;
                d.find( im, BlobParameters(), 0 );
                compare( d(), components( std::vector<uint8_t>( 12, 1 ), 4, 3 ), 0, 0 );
            }
            const std::vector<Image> bad = { Image(), Image( 4, 3, 3 ), Image( 4, 3, 2 ), Image( 4, 3, 4 ) };
            for ( const Image & b : bad ) {
                bool refused = false;
                try {
                    d.find( b );
                }
                catch ( const penguinVException & ) {
                    refused = true;
                }
                if ( !refused )
                    fail( "an image with %u channels and width %u was not refused", b.colorCount(), b.width() );
            }
            const uint32_t big[] = { 0, 1, 4, 5, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFDu, 0xFFFFFFFEu, 0xFFFFFFFFu };
            for ( uint32_t x : big )
                for ( uint32_t y : big )
                    for ( uint32_t w : big )
                        for ( uint32_t h : big ) {
                            const bool valid = w > 0 && h > 0 && uint64_t( x ) + w <= 4 && uint64_t( y ) + h <= 3;
                            bool refused = false;
                            ++ctx().calls;
                            try {
                                d.find( im, x, y, w, h );
                            }
                            catch ( const penguinVException & ) {
                                refused = true;
                            }
                            if ( refused == valid )
                                fail( "region %u,%u %ux%u of a 4x3 image was %s", x, y, w, h, valid ? "refused" : "accepted" );
                        }
        }
    }

    // ------------------------------------------------------------------------------------------------ C19

    struct Measures
    {
        uint32_t left, top, right, bottom;
        double cx, cy, circularity, length;
        std::vector<double> elongation; // one for every longest chord
        size_t size;
    };

    Measures measure( const Reference & r, uint32_t ox, uint32_t oy )
    {
        Measures m;
        m.left = m.top = 0xFFFFFFFFu;
        m.right = m.bottom = 0;
        double sx = 0, sy = 0;
        for ( const Pt & p : r.points ) {
            const uint32_t x = p.second + ox, y = p.first + oy;
            m.left = std::min( m.left, x );
            m.top = std::min( m.top, y );
            m.right = std::max( m.right, x + 1 );
            m.bottom = std::max( m.bottom, y + 1 );
            sx += x;
            sy += y;
        }
        m.size = r.points.size();
        m.cx = sx / double( m.size );
        m.cy = sy / double( m.size );
        const double radius = std::sqrt( double( m.size ) / 3.14159265358979323846 );
        double difference = 0;
        for ( const Pt & p : r.contour )
            difference += std::fabs( std::hypot( p.second + ox - m.cx, p.first + oy - m.cy ) - radius );
        m.circularity = 1 - difference / ( double( r.contour.size() ) * radius );
        int64_t best = 0;
        auto squared = []( const Pt & a, const Pt & b ) {
            const int64_t dx = int64_t( a.second ) - b.second, dy = int64_t( a.first ) - b.first;
            return dx * dx + dy * dy;
        };
        for ( size_t i = 0; i < r.contour.size(); ++i )
            for ( size_t k = i + 1; k < r.contour.size(); ++k )
                best = std::max( best, squared( r.contour[i], r.contour[k] ) );
        m.length = std::sqrt( double( best ) );
        if ( r.contour.size() <= 1 )
            m.elongation.push_back( 1 );
        else
            for ( size_t i = 0; i < r.contour.size(); ++i )
                for ( size_t k = i + 1; k < r.contour.size(); ++k )
                    if ( squared( r.contour[i], r.contour[k] ) == best ) {
                        const double dx = ( double( r.contour[k].second ) - r.contour[i].second ) / m.length, dy = ( double( r.contour[k].first ) - r.contour[i].first ) / m.length;
                        double lo = 1e300, hi = -1e300;
                        for ( const Pt & p : r.contour ) {
                            const double d = dx * p.first - dy * p.second;
                            lo = std::min( lo, d );
                            hi = std::max( hi, d );
                        }
                        m.elongation.push_back( m.length / std::max( 1.0, hi - lo ) );
                    }
        return m;
    }

    bool near( double a, double b )
    {
        return std::fabs( a - b ) <= 1e-9 * std::max( 1.0, std::fabs( b ) );
    }

    // both the computing and the constant getters, in every order which matters
    void compareMeasures( BlobInfo & b, const Measures & m )
    {
        ++ctx().compared;
        const Area a = b.area();
        if ( a.left != m.left || a.right != m.right || a.top != m.top || a.bottom != m.bottom )
            fail( "area %u..%u x %u..%u, expected %u..%u x %u..%u", a.left, a.right, a.top, a.bottom, m.left, m.right, m.top, m.bottom );
        if ( !near( b.circularity(), m.circularity ) )
            fail( "circularity %.12g, expected %.12g", b.circularity(), m.circularity );
        if ( !near( b.center().x, m.cx ) || !near( b.center().y, m.cy ) )
            fail( "center %.12g,%.12g, expected %.12g,%.12g", b.center().x, b.center().y, m.cx, m.cy );
        if ( b.width() != m.right - m.left || b.height() != m.bottom - m.top )
            fail( "width %u height %u, expected %u %u", b.width(), b.height(), m.right - m.left, m.bottom - m.top );
        const double e = b.elongation();
        bool ok = false;
        for ( double v : m.elongation )
            ok = ok || near( e, v );
        if ( !ok )
            fail( "elongation %.12g, expected %.12g (or of another of %zu longest chords)", e, m.elongation[0], m.elongation.size() );
        if ( !near( b.length(), m.length ) )
            fail( "length %.12g, expected %.12g", b.length(), m.length );
        const BlobInfo & c = b;
        if ( c.area().left != m.left || c.width() != m.right - m.left || c.height() != m.bottom - m.top || !near( c.length(), m.length ) || !( c.elongation() == e )
             || !near( c.circularity(), m.circularity ) || !near( c.center().x, m.cx ) || c.size() != m.size )
            fail( "constant getters differ from the others" );
    }

    const int CRITERIA = 6;
    const char * const criterionName[CRITERIA] = { "circularity", "elongation", "height", "length", "size", "width" };

    double valueOf( const BlobInfo & b, int criterion )
    {
        switch ( criterion ) {
        case 0:
            return b.circularity();
        case 1:
            return b.elongation();
        case 2:
            return b.height();
        case 3:
            return b.length();
        case 4:
            return double( b.size() );
        default:
            return b.width();
        }
    }

    void setLimit( BlobParameters & p, int criterion, int which, double v )
    {
        auto put = [&]( auto & parameter ) {
            typedef decltype( parameter.minimum ) T;
            if ( which == 0 )
                parameter.setMinimum( T( v ) );
            else
                parameter.setMaximum( T( v ) );
        };
        switch ( criterion ) {
        case 0:
            return put( p.circularity );
        case 1:
            return put( p.elongation );
        case 2:
            return put( p.height );
        case 3:
            return put( p.length );
        case 4:
            return put( p.size );
        default:
            return put( p.width );
        }
    }

    Pts key( const BlobInfo & b )
    {
        return sorted( b.pointX(), b.pointY(), 0, 0 );
    }

    void filters( const Image & im, bool pairs )
    {
        BlobDetection all;
        all.find( im );
        for ( BlobInfo & b : all.get() ) {
            b.circularity();
            b.elongation();
            b.height();
            b.length();
            b.width();
        }
        const std::vector<BlobInfo> & blobs = all.get();

        // limits: every value that occurs, between them and beyond them
        std::vector<std::vector<double>> limits( CRITERIA );
        for ( int c = 0; c < CRITERIA; ++c ) {
            std::set<double> v;
            for ( const BlobInfo & b : blobs ) {
                const double x = valueOf( b, c );
                v.insert( x );
                if ( c == 0 || c == 1 || c == 3 ) {
                    v.insert( x - 0.01 );
                    v.insert( x + 0.01 );
                }
                else {
                    if ( x >= 1 )
                        v.insert( x - 1 );
                    v.insert( x + 1 );
                }
            }
            limits[size_t( c )].assign( v.begin(), v.end() );
        }

        auto run = [&]( const BlobParameters & p, const std::function<bool( const BlobInfo & )> & keep, bool invalid ) {
            ++ctx().calls;
            BlobDetection d;
            bool refused = false;
            try {
                d.find( im, p );
            }
            catch ( const penguinVException & ) {
                refused = true;
                ++ctx().refused;
            }
            ++ctx().compared;
            if ( refused != invalid )
                fail( "%s", invalid ? "an inverted range was not refused" : "valid ranges were refused" );
            if ( refused )
                return;
            std::set<Pts> expected, got;
            for ( const BlobInfo & b : blobs )
                if ( keep( b ) )
                    expected.insert( key( b ) );
            for ( const BlobInfo & b : d.get() )
                if ( !got.insert( key( b ) ).second )
                    fail( "a blob is reported twice" );
            if ( got != expected )
                fail( "%zu blobs were kept, expected %zu", got.size(), expected.size() );
        };

        for ( int c = 0; c < CRITERIA; ++c ) {
            const std::vector<double> & l = limits[size_t( c )];
            for ( size_t i = 0; i <= l.size(); ++i )
                for ( size_t k = 0; k <= l.size(); ++k ) {
                    BlobParameters p;
                    const bool lo = i < l.size(), hi = k < l.size();
                    if ( lo )
                        setLimit( p, c, 0, l[i] );
                    if ( hi )
                        setLimit( p, c, 1, l[k] );
                    phase( "%s from %s to %s", criterionName[c], lo ? std::to_string( l[i] ).c_str() : "-", hi ? std::to_string( l[k] ).c_str() : "-" );
                    run( p, [&]( const BlobInfo & b ) { return ( !lo || valueOf( b, c ) >= l[i] ) && ( !hi || valueOf( b, c ) <= l[k] ); }, lo && hi && l[i] > l[k] );
                }
        }
        if ( pairs )
            for ( int c = 0; c < CRITERIA; ++c )
                for ( int e = c + 1; e < CRITERIA; ++e )
                    for ( double a : limits[size_t( c )] )
                        for ( double b : limits[size_t( e )] )
                            for ( int which = 0; which < 4; ++which ) {
                                BlobParameters p;
                                setLimit( p, c, which & 1, a );
                                setLimit( p, e, which >> 1, b );
                                phase( "%s %s %g and %s %s %g", criterionName[c], which & 1 ? "up to" : "from", a, criterionName[e], which >> 1 ? "up to" : "from", b );
                                run(
                                    p,
                                    [&]( const BlobInfo & i ) {
                                        const double x = valueOf( i, c ), y = valueOf( i, e );
                                        return ( which & 1 ? x <= a : x >= a ) && ( which >> 1 ? y <= b : y >= b );
                                    },
                                    false );
                            }
        phase( "%s", "" );

        // sorting and best blob, for measures that were computed
        if ( !blobs.empty() )
            for ( int c = 0; c < CRITERIA; ++c )
                for ( int computedBy = 0; computedBy < 2; ++computedBy ) {
                    BlobDetection d;
                    if ( computedBy == 0 ) {
                        BlobParameters p;
                        setLimit( p, c, 0, -1000 < limits[size_t( c )][0] && c != 0 ? 0 : -1000 );
                        d.find( im, p );
                    }
                    else {
                        d.find( im );
                        for ( BlobInfo & b : d.get() ) {
                            b.circularity();
                            b.elongation();
                            b.height();
                            b.length();
                            b.width();
                        }
                    }
                    phase( "sorting by %s", criterionName[c] );
                    ++ctx().calls;
                    ++ctx().compared;
                    const BlobDetection::BlobCriterion criterion = static_cast<BlobDetection::BlobCriterion>( c );
                    double best = -1e300;
                    std::set<Pts> before, after;
                    for ( const BlobInfo & b : d.get() ) {
                        best = std::max( best, valueOf( b, c ) );
                        before.insert( key( b ) );
                    }
                    if ( d.get().size() != blobs.size() )
                        fail( "%zu blobs, expected %zu", d.get().size(), blobs.size() );
                    if ( valueOf( d.getBestBlob( criterion ), c ) != best )
                        fail( "best blob has %g, another one has %g", valueOf( d.getBestBlob( criterion ), c ), best );
                    d.sort( criterion );
                    for ( size_t i = 1; i < d.get().size(); ++i )
                        if ( valueOf( d.get()[i - 1], c ) < valueOf( d.get()[i], c ) )
                            fail( "blobs are not in descending order" );
                    for ( const BlobInfo & b : d.get() )
                        after.insert( key( b ) );
                    if ( before != after )
                        fail( "sorting lost blobs" );
                    if ( valueOf( d.getBestBlob( criterion ), c ) != best )
                        fail( "best blob differs after sorting" );
                }
        phase( "%s", "" );
    }

    void measures19()
    {
        // measures of all blobs of all small images at several positions
        struct Size
        {
            uint32_t w, h;
        };
        std::vector<Size> sizes = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 3, 2 }, { 2, 3 }, { 3, 3 }, { 4, 3 }, { 3, 4 }, { 4, 4 }, { 5, 3 }, { 3, 5 }, { 7, 2 }, { 2, 7 }, { 12, 1 }, { 1, 12 } };
        if ( ctx().thorough )
            sizes.insert( sizes.end(), { Size{ 5, 4 }, Size{ 4, 5 }, Size{ 6, 3 }, Size{ 3, 6 }, Size{ 7, 3 }, Size{ 3, 7 } } );
        for ( const Size & s : sizes ) {
            const uint32_t n = s.w * s.h;
            const uint64_t all = uint64_t( 1 ) << n, block = 128;
            for ( uint64_t from = 0; from < all; from += block )
                for ( uint32_t offset = 0; offset < 2; ++offset ) {
                    if ( !next() )
                        continue;
                    const uint32_t ox = offset ? 7 : 0, oy = offset ? 3 : 0;
                    for ( uint64_t v = from; v < all && v < from + block; ++v ) {
                        const std::vector<uint8_t> bits = bitsOf( v, n );
                        label( "%ux%u %s at %u,%u", s.w, s.h, picture( bits, int( s.w ), int( s.h ) ).c_str(), ox, oy );
                        Image im( s.w + ox, s.h + oy );
                        im.fill( 0 );
                        draw( im, bits, s.w, s.h, ox, oy, 0, 255 );
                        ++ctx().calls;
                        BlobDetection d;
                        d.find( im, ox, oy, s.w, s.h );
                        const std::vector<Reference> ref = components( bits, int( s.w ), int( s.h ) );
                        if ( d.get().size() != ref.size() )
                            continue; // C18
                        for ( BlobInfo & b : d.get() ) {
                            const Pts k = sorted( b.pointX(), b.pointY(), ox, oy );
                            for ( const Reference & r : ref )
                                if ( r.points == k )
                                    compareMeasures( b, measure( r, ox, oy ) );
                        }
                    }
                }
        }

        // every getter as the first one
        for ( auto & sh : shapes() )
            for ( int first = 0; first < 7; ++first ) {
                if ( !next() )
                    continue;
                label( "%s, getter %d first", sh.second, first );
                const uint32_t w = uint32_t( sh.first[0].size() ), h = uint32_t( sh.first.size() );
                std::vector<uint8_t> bits;
                for ( auto & row : sh.first )
                    for ( char ch : row )
                        bits.push_back( ch == '#' );
                Image im( w, h );
                draw( im, bits, w, h, 0, 0, 0, 1 );
                ++ctx().calls;
                BlobDetection d;
                d.find( im );
                for ( BlobInfo & b : d.get() ) {
                    switch ( first ) {
                    case 0:
                        b.area();
                        break;
                    case 1:
                        b.center();
                        break;
                    case 2:
                        b.circularity();
                        break;
                    case 3:
                        b.elongation();
                        break;
                    case 4:
                        b.height();
                        break;
                    case 5:
                        b.length();
                        break;
                    default:
                        b.width();
                    }
                    const Pts k = sorted( b.pointX(), b.pointY(), 0, 0 );
                    for ( const Reference & r : components( bits, int( w ), int( h ) ) )
                        if ( r.points == k )
                            compareMeasures( b, measure( r, 0, 0 ) );
                }
            }

        // large positions and sizes
        struct Big
        {
            uint32_t w, h;
            bool full;
        };
        const Big bigs[] = { { 70000, 1, true }, { 1, 70000, true }, { 65537, 2, false }, { 3, 46342, false }, { 3000, 2000, true }, { 92000, 3, false } };
        for ( const Big & g : bigs ) {
            if ( !next() )
                continue;
            label( "large image %ux%u %s", g.w, g.h, g.full ? "filled" : "with few pixels" );
            Image im( g.w, g.h );
            im.fill( 0 );
            ++ctx().calls;
            BlobDetection d;
            if ( g.full && uint64_t( g.w ) * g.h > 1000000 ) { // only what does not need all pairs of contour points
                im.fill( 1 );
                BlobInfo b = d.find( im )[0];
                ++ctx().compared;
                if ( !near( b.center().x, ( g.w - 1 ) / 2.0 ) || !near( b.center().y, ( g.h - 1 ) / 2.0 ) )
                    fail( "center %g,%g of a filled image", b.center().x, b.center().y );
                if ( b.width() != g.w || b.height() != g.h || b.area().right != g.w || b.area().bottom != g.h )
                    fail( "width or height of a filled image" );
                continue;
            }
            // a line along the longer side would have too many pairs: measure a blob of its two ends by joining them in a region of few pixels
            const uint32_t n = std::max( g.w, g.h );
            (void)n;
            for ( uint32_t k = 0; k < 3; ++k ) {
                im.data()[size_t( im.rowSize() ) * ( g.h - 1 ) + g.w - 1] = 1;
                if ( g.w > 1 )
                    im.data()[size_t( im.rowSize() ) * ( g.h - 1 ) + g.w - 2] = 1;
                else
                    im.data()[size_t( im.rowSize() ) * ( g.h - 2 ) + g.w - 1] = 1;
            }
            BlobInfo b = d.find( im )[0];
            ++ctx().compared;
            Reference r;
            r.points = sorted( b.pointX(), b.pointY(), 0, 0 );
            r.contour = r.points;
            compareMeasures( b, measure( r, 0, 0 ) );
        }
        if ( next() ) {
            label( "line of 50000 pixels" );
            Image im( 50000, 1 );
            im.fill( 1 );
            BlobDetection d;
            ++ctx().calls;
            ++ctx().compared;
            BlobInfo b = d.find( im )[0];
            if ( b.length() != 49999 )
                fail( "length %g, expected 49999", b.length() );
            if ( !near( b.center().x, 24999.5 ) )
                fail( "center %g, expected 24999.5", b.center().x );
        }

        // filtering, sorting and selection: images with several blobs of different sizes and shapes
        const std::vector<std::vector<std::string>> scenes = {
            { "#.##.###.####", ".............", "#.#...#...##.", "#.....#...##.", "#............" },
            { "#####....", "........#", "###......", "###..#.#.", "###...#..", ".....#.#." },
            { "#" },
            { "....", "...." },
            { "##..##..##", "##..##..##" },
            { "#.#.#.#", ".......", "##.##.#", ".......", "###.###" },
            { "#......", ".#.....", "..#..##", "...#.##", "......." },
            { std::string( 258, '#' ) + "." + std::string( 3, '#' ), std::string( 262, '.' ), std::string( 5, '#' ) + "." + std::string( 256, '#' ) },
        };
        for ( size_t i = 0; i < scenes.size(); ++i ) {
            const auto & rows = scenes[i];
            for ( int transpose = 0; transpose < 2; ++transpose ) {
                if ( !next() )
                    continue;
                label( "scene %zu%s", i, transpose ? " transposed" : "" );
                const uint32_t w = uint32_t( rows[0].size() ), h = uint32_t( rows.size() );
                Image im( transpose ? h : w, transpose ? w : h );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x )
                        im.data()[transpose ? x * im.rowSize() + y : y * im.rowSize() + x] = rows[y][x] == '#' ? 255 : 0;
                filters( im, true );
            }
        }
        // all images of two rows
        const uint32_t width = ctx().thorough ? 6 : 5;
        for ( uint64_t v = 0; v < ( uint64_t( 1 ) << ( 2 * width ) ); ++v ) {
            if ( !next() )
                continue;
            const std::vector<uint8_t> bits = bitsOf( v, 2 * width );
            label( "filters of %s", picture( bits, int( width ), 2 ).c_str() );
            Image im( width, 2 );
            draw( im, bits, width, 2, 0, 0, 0, 255 );
            filters( im, false );
        }
        if ( next() ) {
            label( "parameter structure" );
            BlobParameters p;
            p.width.set( 3, 2 );
            bool refused = false;
            Image im( 3, 3 );
            im.fill( 1 );
            BlobDetection d;
            d.find( im );
            try {
                d.find( im, p );
            }
            catch ( const penguinVException & ) {
                refused = true;
            }
            ++ctx().calls;
            ++ctx().compared;
            if ( !refused || d.get().size() != 1 )
                fail( "an inverted range was not refused or lost the previous result" );
            p._reset();
            d.find( im, p );
            if ( d.get().size() != 1 )
                fail( "reset parameters still restrict" );
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    if ( ctx().args.at( 0 ) == "C18" )
        components18();
    else
        measures19();
    vp::finish();
    return 0;
}
