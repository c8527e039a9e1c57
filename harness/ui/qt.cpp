// C33: the window for Qt. Its label is found through the application and painted into an image by Qt's offscreen platform.
#include "ui/qt/qt_ui.h"
#include "penguinv_exception.h"
#include "vp.h"
#include <QApplication>
#include <QImage>
#include <cmath>
#include <memory>
#include <unistd.h>

extern "C" const char * __lsan_default_suppressions()
{
    return "leak:libQt5\nleak:libfontconfig\nleak:libglib\nleak:qoffscreen\nleak:libfreetype\n";
}

using namespace vp;
typedef penguinV::Image Image;

namespace
{
    struct Picture // 0xRRGGBB
    {
        int w = 0, h = 0;
        std::vector<uint32_t> pixel;
        uint32_t at( int x, int y ) const
        {
            return pixel[size_t( y ) * size_t( w ) + size_t( x )];
        }
    };

    Image make( int kind )
    {
        static const uint32_t w[] = { 0, 1, 3, 2, 5, 4, 7, 2, 3, 2 }, h[] = { 0, 1, 2, 3, 4, 5, 1, 2, 2, 2 };
        static const uint8_t cc[] = { 1, 1, 1, 3, 3, 1, 3, 4, 2, 5 }, al[] = { 1, 4, 8, 4, 16, 1, 1, 1, 4, 1 };
        Image i;
        i.setColorCount( cc[kind] );
        i.setAlignment( al[kind] );
        i.resize( w[kind], h[kind] );
        for ( uint32_t k = 0; k < i.rowSize() * i.height(); ++k )
            i.data()[k] = uint8_t( k * 37 + uint32_t( kind ) * 11 + 200 );
        return i;
    }
    const int KINDS = 10, BAD = 7;

    Picture expected( const Image & im )
    {
        Picture p;
        p.w = int( im.width() );
        p.h = int( im.height() );
        for ( uint32_t y = 0; y < im.height(); ++y )
            for ( uint32_t x = 0; x < im.width(); ++x ) {
                const uint8_t * d = im.data() + size_t( y ) * im.rowSize() + x * im.colorCount();
                p.pixel.push_back( im.colorCount() == 1 ? d[0] * 0x010101u : uint32_t( d[0] | d[1] << 8 | d[2] << 16 ) ); // the order of loaded images
            }
        return p;
    }

    Picture convert( const QImage & image )
    {
        Picture p;
        p.w = image.width();
        p.h = image.height();
        for ( int y = 0; y < p.h; ++y )
            for ( int x = 0; x < p.w; ++x )
                p.pixel.push_back( image.pixel( x, y ) & 0xFFFFFF );
        return p;
    }

    // ---- shapes: what must and what may be painted
    struct Shape
    {
        int kind; // 0 point, 1 line, 2 ellipse, 3 rectangle
        double a, b, c, d;
        uint32_t colour;
    };

    double distanceToSegment( double x, double y, double x1, double y1, double x2, double y2 )
    {
        const double dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy;
        double t = l > 0 ? ( ( x - x1 ) * dx + ( y - y1 ) * dy ) / l : 0;
        t = std::min( 1.0, std::max( 0.0, t ) );
        return std::hypot( x - x1 - t * dx, y - y1 - t * dy );
    }

    struct Outline
    {
        std::vector<std::pair<double, double>> points; // dense samples of the ideal shape
        double tolerance;
    };
    Outline outline( const Shape & s )
    {
        Outline o;
        auto segment = [&o]( double x1, double y1, double x2, double y2 ) {
            const int n = 1 + int( 4 * std::hypot( x2 - x1, y2 - y1 ) );
            for ( int i = 0; i <= n; ++i )
                o.points.push_back( { x1 + ( x2 - x1 ) * i / n, y1 + ( y2 - y1 ) * i / n } );
        };
        o.tolerance = 1;
        if ( s.kind == 0 ) {
            o.points.push_back( { std::trunc( s.a ), std::trunc( s.b ) } );
            o.tolerance = 0;
        }
        else if ( s.kind == 1 )
            segment( std::trunc( s.a ), std::trunc( s.b ), std::trunc( s.c ), std::trunc( s.d ) );
        else if ( s.kind == 2 ) {
            const int n = 8 + int( 8 * ( s.c + s.d ) );
            for ( int i = 0; i < n; ++i )
                o.points.push_back( { s.a + s.c * std::cos( i * 2 * 3.14159265358979 / n ), s.b + s.d * std::sin( i * 2 * 3.14159265358979 / n ) } );
            o.tolerance = 1.5;
        }
        else {
            const double x = std::trunc( s.a ), y = std::trunc( s.b ), w = std::trunc( s.c ), h = std::trunc( s.d );
            segment( x, y, x + w, y );
            segment( x, y + h, x + w, y + h );
            segment( x, y, x, y + h );
            segment( x + w, y, x + w, y + h );
        }
        return o;
    }

    // before: what was shown before the shape was drawn
    bool drawn( const Picture & before, const Picture & after, const Shape & s, std::string & why )
    {
        char b[200];
        if ( before.w != after.w || before.h != after.h ) {
            why = "drawing changes the size";
            return false;
        }
        const Outline o = outline( s );
        for ( int y = 0; y < after.h; ++y )
            for ( int x = 0; x < after.w; ++x ) {
                const uint32_t is = after.at( x, y ), was = before.at( x, y );
                if ( is == was )
                    continue;
                double nearest = 1e9;
                for ( auto & p : o.points )
                    nearest = std::min( nearest, std::hypot( p.first - x, p.second - y ) );
                if ( is != s.colour || nearest > o.tolerance + 1e-6 ) {
                    snprintf( b, sizeof b, "pixel %d,%d is %06x instead of %06x", x, y, is, nearest > o.tolerance + 1e-6 ? was : s.colour );
                    why = b;
                    return false;
                }
            }
        if ( s.kind == 3 && std::trunc( s.c ) < 1 && std::trunc( s.d ) < 1 )
            return true; // nothing or a point
        // every part of the shape inside of the image has a painted pixel
        for ( auto & p : o.points ) {
            const int px = int( std::lround( p.first ) ), py = int( std::lround( p.second ) );
            const int margin = s.kind == 0 ? 0 : 1; // near the border the nearest pixel may be outside
            if ( px < margin || py < margin || px >= after.w - margin || py >= after.h - margin )
                continue;
            bool found = false;
            for ( int y = 0; y < after.h && !found; ++y )
                for ( int x = 0; x < after.w && !found; ++x )
                    found = after.at( x, y ) == s.colour && std::hypot( p.first - x, p.second - y ) <= o.tolerance + 1e-6;
            if ( !found ) {
                snprintf( b, sizeof b, "the shape is not painted near %g,%g", p.first, p.second );
                why = b;
                return false;
            }
        }
        return true;
    }

    void draw( UiWindowQt & w, const Shape & s )
    {
        const PaintColor colour( uint8_t( s.colour >> 16 ), uint8_t( s.colour >> 8 ), uint8_t( s.colour ) );
        if ( s.kind == 0 )
            w.drawPoint( Point2d( s.a, s.b ), colour );
        else if ( s.kind == 1 )
            w.drawLine( Point2d( s.a, s.b ), Point2d( s.c, s.d ), colour );
        else if ( s.kind == 2 )
            w.drawEllipse( Point2d( s.a, s.b ), s.c, s.d, colour );
        else
            w.drawRectangle( Point2d( s.a, s.b ), s.c, s.d, colour );
    }

    // the only label of the application
    QLabel * label_()
    {
        QLabel * found = nullptr;
        for ( QWidget * w : QApplication::allWidgets() )
            if ( QLabel * l = qobject_cast<QLabel *>( w ) ) {
                if ( found )
                    fail( "a window has more than one label" );
                found = l;
            }
        return found;
    }
    Picture content( QLabel * l )
    {
        const QPixmap p = l->pixmap( Qt::ReturnByValue );
        return convert( p.toImage() );
    }
    // what the user sees
    void visible( QLabel * l, const Picture & p )
    {
        QApplication::processEvents();
        expect( l->isVisible(), "the window is not visible" );
        if ( p.pixel.empty() )
            return;
        const Picture seen = convert( l->grab().toImage() );
        // the image is somewhere in the window, as a whole
        for ( int oy = 0; oy + p.h <= seen.h; ++oy )
            for ( int ox = 0; ox + p.w <= seen.w; ++ox ) {
                bool same = true;
                for ( int y = 0; y < p.h && same; ++y )
                    for ( int x = 0; x < p.w && same; ++x )
                        same = seen.at( ox + x, oy + y ) == p.at( x, y );
                if ( same )
                    return;
            }
        fail( "the window of %dx%d pixels does not show the image", seen.w, seen.h );
    }

    const Shape shapes[] = { { 0, 1, 1, 0, 0, 0xFF0000 },     { 0, 2.75, 1.25, 0, 0, 0x00FE01 }, { 0, 4, 0, 0, 0, 0x0203FD },  { 1, 0, 0, 3, 2, 0x123456 },
                             { 1, 2, 1, 2, 1, 0x00FF77 },     { 2, 2, 1.5, 1.5, 1, 0xABCDEF },   { 3, 0, 0, 2, 1, 0x775533 },  { 3, 1, 1, 7, 7, 0x010203 } };
    const int SHAPES = sizeof shapes / sizeof *shapes;
    const int OPERATIONS = 2 + KINDS + SHAPES; // show, close by the user, set an image, draw

    void run( int first, int code, int depth )
    {
        ++ctx().calls;
        const int windowsBefore = int( QApplication::allWidgets().size() );
        {
            std::unique_ptr<UiWindowQt> window;
            {
                const Image image = make( first );
                try {
                    window.reset( new UiWindowQt( image, "title" ) );
                }
                catch ( const penguinVException & ) {
                    ++ctx().refused;
                }
            }
            expect( bool( window ) == ( first < BAD ), "wrong accept or reject decision of an image" );
            if ( window ) {
                QLabel * l = label_();
                if ( l == nullptr )
                    fail( "no label" );
                expect( l->window()->windowTitle() == "title", "wrong title" );
                Picture current = expected( make( first ) );
                bool everShown = false, open = false;
                for ( int step = 0, rest = code; step <= depth; ++step, rest /= OPERATIONS ) {
                    const Picture now = content( l );
                    if ( now.w != current.w || now.h != current.h || now.pixel != current.pixel )
                        fail( "the image of %dx%d pixels is not shown after step %d", current.w, current.h, step );
                    if ( !everShown )
                        expect( !l->isVisible(), "a window is visible before it is shown" );
                    if ( open )
                        visible( l, current );
                    ++ctx().compared;
                    if ( step == depth )
                        break;
                    const int op = rest % OPERATIONS;
                    ++ctx().calls;
                    bool threw = false;
                    try {
                        if ( op == 0 ) {
                            window->show();
                            everShown = open = true;
                        }
                        else if ( op == 1 ) {
                            l->close();
                            open = false;
                        }
                        else if ( op < 2 + KINDS ) {
                            {
                                const Image next = make( op - 2 );
                                window->setImage( next );
                            }
                            if ( op - 2 < BAD )
                                current = expected( make( op - 2 ) );
                        }
                        else {
                            const Shape & s = shapes[op - 2 - KINDS];
                            draw( *window, s );
                            if ( !current.pixel.empty() ) {
                                const Picture after = content( l );
                                std::string why;
                                if ( !drawn( current, after, s, why ) )
                                    fail( "%s", why.c_str() );
                                current = after;
                            }
                        }
                    }
                    catch ( const penguinVException & ) {
                        threw = true;
                        ++ctx().refused;
                    }
                    expect( threw == ( op >= 2 + BAD && op < 2 + KINDS ), "wrong accept or reject decision" );
                }
            }
        }
        expect( QApplication::allWidgets().size() == windowsBefore, "a widget is left" );
    }

    // every shape of a grid on one image
    void single( const Shape & s, uint32_t w, uint32_t h )
    {
        ++ctx().calls;
        Image image( w, h );
        image.fill( 7 );
        UiWindowQt window( image );
        const Picture before = content( label_() );
        draw( window, s );
        std::string why;
        if ( !drawn( before, content( label_() ), s, why ) )
            fail( "shape %d %g %g %g %g: %s", s.kind, s.a, s.b, s.c, s.d, why.c_str() );
        ++ctx().compared;
    }
}

int main( int argc, char ** argv )
{
    setenv( "QT_QPA_PLATFORM", "offscreen", 1 );
    char folder[4096];
    if ( getcwd( folder, sizeof folder ) )
        setenv( "XDG_RUNTIME_DIR", folder, 1 );
    int one = 1;
    QApplication application( one, argv );
    init( argc, argv );
    const int depth = ctx().thorough ? 4 : 3;
    for ( int first = 0; first < KINDS; ++first )
        for ( int second = 0; second < OPERATIONS; ++second ) {
            if ( !next() )
                continue;
            label( "window with image %d, operations %d ..", first, second );
            int total = 1;
            for ( int i = 1; i < depth; ++i )
                total *= OPERATIONS;
            for ( int code = 0; code < total; ++code ) {
                phase( "code %d", code );
                run( first, code * OPERATIONS + second, depth );
                if ( first >= BAD )
                    break;
            }
        }
    // all images of small sizes
    for ( uint32_t w = 1; w <= 20; ++w )
        for ( uint8_t channels : { 1, 3 } ) {
            if ( !next() )
                continue;
            label( "images of width %u with %d channels", w, channels );
            for ( uint32_t h : { 1u, 2u, 3u, 17u } )
                for ( uint8_t alignment : { 1, 2, 4, 8, 16, 32 } ) {
                    phase( "height %u alignment %d", h, alignment );
                    ++ctx().calls;
                    Image image( w, h, channels, alignment );
                    for ( uint32_t k = 0; k < image.rowSize() * h; ++k )
                        image.data()[k] = uint8_t( k * 151 + w );
                    const Picture want = expected( image );
                    UiWindowQt window( image );
                    image.fill( 1 );
                    image.clear();
                    const Picture now = content( label_() );
                    if ( now.w != want.w || now.h != want.h || now.pixel != want.pixel )
                        fail( "the image is not shown" );
                    window.show();
                    visible( label_(), want );
                    ++ctx().compared;
                }
        }
    // transparency
    for ( int alpha = 0; alpha < 256; ++alpha ) {
        if ( !next() )
            continue;
        label( "transparency %d", alpha );
        for ( int kind = 0; kind < 4; ++kind )
            for ( int under = 0; under < 256; under += 51 ) {
                phase( "shape %d on %d", kind, under );
                ++ctx().calls;
                Image image( 6, 6, 3 );
                image.fill( uint8_t( under ) );
                UiWindowQt window( image );
                const Picture before = content( label_() );
                const int rgb[3] = { 255, 0, 90 };
                const PaintColor colour( 255, 0, 90, uint8_t( alpha ) );
                if ( kind == 0 )
                    window.drawPoint( Point2d( 2, 3 ), colour );
                else if ( kind == 1 )
                    window.drawLine( Point2d( 1, 1 ), Point2d( 4, 1 ), colour );
                else if ( kind == 2 )
                    window.drawEllipse( Point2d( 3, 3 ), 2, 2, colour );
                else
                    window.drawRectangle( Point2d( 1, 1 ), 3, 3, colour );
                const Picture after = content( label_() );
                int painted = 0;
                for ( int i = 0; i < 36; ++i ) {
                    bool same = true, mixed = true;
                    for ( int c = 0; c < 3; ++c ) {
                        const int was = int( before.pixel[size_t( i )] >> ( 16 - 8 * c ) & 255 ), is = int( after.pixel[size_t( i )] >> ( 16 - 8 * c ) & 255 );
                        same = same && is == was;
                        mixed = mixed && std::fabs( is - ( was * ( 255.0 - alpha ) + rgb[c] * alpha ) / 255 ) <= 3;
                    }
                    if ( !same && !mixed )
                        fail( "pixel %d is %06x after painting over %06x", i, after.pixel[size_t( i )], before.pixel[size_t( i )] );
                    painted += mixed ? 1 : 0;
                }
                if ( painted < ( kind == 0 ? 1 : kind == 1 ? 3 : 5 ) )
                    fail( "%d pixels are painted", painted );
                ++ctx().compared;
            }
    }
    // shapes
    const int W = 7, H = 6;
    for ( int x = -2; x < W + 2; ++x ) {
        if ( !next() )
            continue;
        label( "shapes from column %d", x );
        for ( int y = -2; y < H + 2; ++y ) {
            for ( double fx : { 0.0, 0.25, 0.5, 0.75 } )
                for ( double fy : { 0.0, 0.5, 0.875 } ) {
                    phase( "point %d,%d", x, y );
                    single( Shape{ 0, x + fx, y + fy, 0, 0, 0x40A0F0 }, W, H );
                }
            for ( int x2 = -2; x2 < W + 2; ++x2 )
                for ( int y2 = -2; y2 < H + 2; ++y2 ) {
                    phase( "line %d,%d to %d,%d", x, y, x2, y2 );
                    single( Shape{ 1, double( x ), double( y ), double( x2 ), double( y2 ), 0x40A0F0 }, W, H );
                }
            for ( int w = 0; w <= W + 1; ++w )
                for ( int h = 0; h <= H + 1; ++h ) {
                    phase( "rectangle %d,%d of %dx%d", x, y, w, h );
                    single( Shape{ 3, double( x ), double( y ), double( w ), double( h ), 0x40A0F0 }, W, H );
                }
            for ( double rx : { 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 8.0 } )
                for ( double ry : { 0.5, 1.0, 2.0, 2.5, 4.0, 7.0 } ) {
                    phase( "ellipse %d,%d of %gx%g", x, y, rx, ry );
                    single( Shape{ 2, x + 0.5, double( y ), rx, ry, 0x40A0F0 }, 2 * W, 2 * H );
                }
        }
    }
    finish();
    return 0;
}
