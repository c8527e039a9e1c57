// C32: the window for X11 on a stand-in X server which keeps the contents of windows.
#include "tool/ui/tool_ui.h"
#include "ui/x11/x11_ui.h"
#include "penguinv_exception.h"
#include "vp.h"
#include <X11/Xutil.h>
#include <deque>
#include <map>
#include <memory>

using namespace vp;
typedef penguinV::Image Image;
typedef std::vector<uint32_t> Picture; // 0x00RRGGBB
static const uint32_t NOTHING = 0xFF000000;

// ---------------------------------------------------------------------------------------------------------- stand-in
namespace
{
    struct Canvas
    {
        unsigned w = 0, h = 0;
        bool mapped = false;
        std::string title;
        Picture pixel;
        void clear()
        {
            pixel.assign( size_t( w ) * h, NOTHING );
        }
        void set( int x, int y, uint32_t v )
        {
            if ( x >= 0 && y >= 0 && unsigned( x ) < w && unsigned( y ) < h )
                pixel[size_t( y ) * w + unsigned( x )] = v & 0xFFFFFF;
        }
    };
    std::remove_pointer<_XPrivDisplay>::type server;
    Screen screen;
    Visual visual;
    std::map<Window, Canvas> windows;
    std::map<std::string, Atom> atoms;
    std::map<Window, Atom> protocol;
    std::deque<XEvent> events;
    Window nextWindow = 100;
    int displays = 0, images = 0;
    unsigned long foreground = 0;
    uint64_t drawings = 0;
    std::string misuse;
    std::vector<Picture> exposed; // what was visible after every exposure
    bool pendingExposure = false;
    bool refuseDisplay = false;

    Canvas & canvas( Window w )
    {
        auto i = windows.find( w );
        if ( i == windows.end() ) {
            misuse = "drawing in a window which does not exist";
            static Canvas none;
            return none;
        }
        return i->second;
    }
    void finishExposure()
    {
        if ( pendingExposure && !windows.empty() )
            exposed.push_back( windows.begin()->second.pixel );
        pendingExposure = false;
    }
    struct Closed
    {};
}

extern "C" {
Display * XOpenDisplay( const char * )
{
    if ( refuseDisplay )
        return nullptr;
    ++displays;
    server.screens = &screen;
    server.nscreens = 1;
    server.default_screen = 0;
    screen.root = 1;
    screen.root_depth = 24;
    screen.root_visual = &visual;
    screen.default_gc = reinterpret_cast<GC>( &foreground );
    screen.white_pixel = 0xFFFFFF;
    visual.red_mask = 0xFF0000;
    visual.green_mask = 0xFF00;
    visual.blue_mask = 0xFF;
    return reinterpret_cast<Display *>( &server );
}
int XCloseDisplay( Display * )
{
    if ( --displays < 0 )
        misuse = "display was closed twice";
    windows.clear();
    return 0;
}
Window XCreateSimpleWindow( Display *, Window, int, int, unsigned w, unsigned h, unsigned, unsigned long, unsigned long )
{
    if ( !w || !h )
        misuse = "window of no size";
    Canvas & c = windows[++nextWindow];
    c.w = w;
    c.h = h;
    c.clear();
    return nextWindow;
}
int XDestroyWindow( Display *, Window w )
{
    if ( !windows.erase( w ) )
        misuse = "window was destroyed twice";
    return 0;
}
int XResizeWindow( Display *, Window w, unsigned width, unsigned height )
{
    if ( !width || !height )
        misuse = "window of no size";
    Canvas & c = canvas( w );
    c.w = width;
    c.h = height;
    c.clear();
    return 0;
}
int XMoveResizeWindow( Display * d, Window w, int, int, unsigned width, unsigned height )
{
    return XResizeWindow( d, w, width, height );
}
int XSelectInput( Display *, Window, long mask )
{
    if ( !( mask & ExposureMask ) )
        misuse = "exposures are not selected";
    return 0;
}
int XMapWindow( Display *, Window w )
{
    canvas( w ).mapped = true;
    return 0;
}
int XUnmapWindow( Display *, Window w )
{
    canvas( w ).mapped = false;
    return 0;
}
int XStoreName( Display *, Window w, const char * name )
{
    canvas( w ).title = name;
    return 0;
}
Atom XInternAtom( Display *, const char * name, Bool )
{
    Atom & a = atoms[name];
    if ( !a )
        a = 500 + atoms.size();
    return a;
}
Status XSetWMProtocols( Display *, Window w, Atom * a, int n )
{
    if ( n > 0 )
        protocol[w] = a[0];
    return 1;
}
int XNextEvent( Display *, XEvent * e )
{
    finishExposure();
    if ( events.empty() )
        throw Closed(); // waits for ever
    *e = events.front();
    events.pop_front();
    if ( e->type == Expose ) {
        pendingExposure = true;
        if ( !windows.empty() )
            windows.begin()->second.clear();
    }
    return 0;
}
int XPending( Display * )
{
    return int( events.size() );
}
int XFlush( Display * )
{
    return 0;
}
int XSync( Display *, Bool )
{
    return 0;
}
int XClearArea( Display *, Window w, int, int, unsigned, unsigned, Bool )
{
    canvas( w ).clear();
    return 0;
}
int XClearWindow( Display *, Window w )
{
    canvas( w ).clear();
    return 0;
}
static int destroyImage( XImage * i )
{
    if ( i->data )
        free( i->data );
    --images;
    delete i;
    return 1;
}
XImage * XCreateImage( Display *, Visual *, unsigned depth, int format, int offset, char * data, unsigned w, unsigned h, int pad, int row )
{
    XImage * i = new XImage();
    memset( i, 0, sizeof *i );
    ++images;
    i->width = int( w );
    i->height = int( h );
    i->xoffset = offset;
    i->format = format;
    i->data = data;
    i->depth = int( depth );
    i->bitmap_pad = pad;
    i->bits_per_pixel = 32;
    i->bytes_per_line = row ? row : int( ( w * 32 + unsigned( pad ) - 1 ) / unsigned( pad ) * unsigned( pad ) / 8 );
    i->f.destroy_image = destroyImage;
    if ( depth != 24 || format != ZPixmap )
        misuse = "image of another depth or format";
    return i;
}
int XFree( void * )
{
    return 0;
}
int XPutImage( Display *, Drawable w, GC, XImage * i, int sx, int sy, int dx, int dy, unsigned width, unsigned height )
{
    ++drawings;
    Canvas & c = canvas( w );
    for ( unsigned y = 0; y < height && int( y ) + sy < i->height; ++y )
        for ( unsigned x = 0; x < width && int( x ) + sx < i->width; ++x ) {
            const unsigned char * p = reinterpret_cast<const unsigned char *>( i->data ) + size_t( int( y ) + sy ) * size_t( i->bytes_per_line ) + size_t( int( x ) + sx ) * 4;
            c.set( dx + int( x ), dy + int( y ), uint32_t( p[0] | p[1] << 8 | p[2] << 16 ) );
        }
    return 0;
}
int XSetForeground( Display *, GC, unsigned long v )
{
    foreground = v;
    return 0;
}
int XDrawPoint( Display *, Drawable w, GC, int x, int y )
{
    ++drawings;
    canvas( w ).set( x, y, uint32_t( foreground ) );
    return 0;
}
int XDrawLine( Display *, Drawable w, GC, int x1, int y1, int x2, int y2 )
{
    ++drawings;
    Canvas & c = canvas( w );
    const int n = std::max( std::abs( x2 - x1 ), std::abs( y2 - y1 ) );
    if ( n > 1000 ) {
        misuse = "line of an unlikely length";
        return 0;
    }
    for ( int i = 0; i <= n; ++i )
        c.set( n ? x1 + ( x2 - x1 ) * i / n : x1, n ? y1 + ( y2 - y1 ) * i / n : y1, uint32_t( foreground ) );
    return 0;
}
int XFillRectangle( Display *, Drawable w, GC, int x, int y, unsigned width, unsigned height )
{
    ++drawings;
    Canvas & c = canvas( w );
    for ( unsigned j = 0; j < height && j < 100; ++j )
        for ( unsigned i = 0; i < width && i < 100; ++i )
            c.set( x + int( i ), y + int( j ), uint32_t( foreground ) );
    return 0;
}
}

// -------------------------------------------------------------------------------------------------------------- model
static Image make( int kind )
{
    static const uint32_t w[] = { 0, 1, 3, 2, 5, 4, 2 }, h[] = { 0, 1, 2, 3, 4, 5, 2 };
    static const uint8_t cc[] = { 1, 1, 1, 3, 3, 1, 4 }, al[] = { 1, 4, 8, 4, 16, 1, 1 };
    Image i;
    i.setColorCount( cc[kind] );
    i.setAlignment( al[kind] );
    i.resize( w[kind], h[kind] );
    for ( uint32_t k = 0; k < i.rowSize() * i.height(); ++k )
        i.data()[k] = uint8_t( k * 37 + uint32_t( kind ) * 11 + 200 );
    return i;
}
static const int KINDS = 7, BAD = 6;

struct Mark
{
    double x, y;
    uint32_t colour;
};

// what an exposure has to show: the image, and marks of the size of a pixel or its neighbours
static bool shows( const Picture & p, unsigned w, unsigned h, const Image & im, const std::vector<Mark> & marks, std::string & why )
{
    if ( p.size() != size_t( w ) * h ) {
        why = "wrong size of the window";
        return false;
    }
    for ( unsigned y = 0; y < h; ++y )
        for ( unsigned x = 0; x < w; ++x ) {
            const uint32_t got = p[size_t( y ) * w + x];
            uint32_t base = NOTHING;
            if ( !im.empty() && x < im.width() && y < im.height() ) {
                const uint8_t * d = im.data() + size_t( y ) * im.rowSize() + x * im.colorCount();
                base = im.colorCount() == 1 ? d[0] * 0x010101u : uint32_t( d[0] | d[1] << 8 | d[2] << 16 );
            }
            std::vector<uint32_t> possible( 1, base );
            for ( const Mark & m : marks ) {
                const int dx = std::abs( int( m.x ) - int( x ) ), dy = std::abs( int( m.y ) - int( y ) );
                if ( dx == 0 && dy == 0 )
                    possible.assign( 1, m.colour );
                else if ( dx <= 1 && dy <= 1 )
                    possible.push_back( m.colour );
            }
            if ( std::find( possible.begin(), possible.end(), got ) == possible.end() ) {
                char b[200];
                snprintf( b, sizeof b, "pixel %u,%u is %06x instead of %06x", x, y, got, possible[0] );
                why = b;
                return false;
            }
        }
    return true;
}

static void push( int type, Atom atom = 0 )
{
    XEvent e;
    memset( &e, 0, sizeof e );
    e.type = type;
    if ( type == ClientMessage ) {
        e.xclient.format = 32;
        e.xclient.data.l[0] = long( atom );
    }
    events.push_back( e );
}
static void script( int n )
{
    const Atom close = XInternAtom( nullptr, "WM_DELETE_WINDOW", False ), other = XInternAtom( nullptr, "ANOTHER", False );
    events.clear();
    if ( n == 0 ) {
        push( Expose );
    }
    else if ( n == 1 ) {
        push( KeyPress );
        push( Expose );
        push( ClientMessage, other );
        push( Expose );
        push( ConfigureNotify );
    }
    push( ClientMessage, close );
}
static const int exposures[] = { 1, 2, 0 };

static const int OPERATIONS = 3 + KINDS + 4;

static void run( int first, int code, int depth )
{
    windows.clear();
    events.clear();
    misuse.clear();
    exposed.clear();
    pendingExposure = false;
    const int beforeDisplays = displays, beforeImages = images;
    Image current = make( first );
    unsigned winW = std::max( 1u, current.width() ), winH = std::max( 1u, current.height() );
    std::vector<Mark> marks;
    bool shown = false;
    ++ctx().calls;
    try {
        std::unique_ptr<UiWindowX11> window;
        try {
            window.reset( new UiWindowX11( current, "title" ) );
        }
        catch ( const penguinVException & ) {
            ++ctx().refused;
        }
        expect( bool( window ) == ( first != BAD ), "wrong accept or reject decision of an image" );
        if ( window ) {
            expect( windows.size() == 1 && windows.begin()->second.mapped && windows.begin()->second.title == "title", "window is not mapped or has another title" );
            for ( int step = 0, rest = code; step < depth; ++step, rest /= OPERATIONS ) {
                const int op = rest % OPERATIONS;
                const uint64_t drawn = drawings;
                exposed.clear();
                int events_ = 0;
                bool threw = false, expected = false;
                ++ctx().calls;
                try {
                    if ( op < 3 ) {
                        script( op );
                        events_ = exposures[op];
                        shown = true;
                        window->show();
                    }
                    else if ( op < 3 + KINDS ) {
                        const Image next = make( op - 3 );
                        script( step % 2 );
                        expected = op - 3 == BAD;
                        if ( shown && !expected )
                            events_ = exposures[step % 2];
                        if ( !expected ) {
                            current = next;
                            if ( !next.empty() ) {
                                winW = next.width();
                                winH = next.height();
                            }
                        }
                        window->setImage( next );
                    }
                    else {
                        static const Mark m[] = { { 1, 1, 0xFF0000 }, { 2.75, 1.25, 0x00FE01 }, { 0, 3, 0x0203FD }, { 1, 1, 0x123456 } };
                        const Mark & k = m[op - 3 - KINDS];
                        script( 0 );
                        marks.push_back( k );
                        window->drawPoint( Point2d( k.x, k.y ), PaintColor( uint8_t( k.colour >> 16 ), uint8_t( k.colour >> 8 ), uint8_t( k.colour ) ) );
                        if ( !exposed.empty() )
                            events_ = int( exposed.size() ); // points may be displayed at once
                    }
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++ctx().refused;
                }
                finishExposure();
                expect( threw == expected, "wrong accept or reject decision" );
                if ( !misuse.empty() )
                    fail( "%s", misuse.c_str() );
                if ( !shown )
                    expect( drawings == drawn, "something is drawn in a window which is not shown" );
                if ( !threw )
                    expect( int( exposed.size() ) == events_, "an exposure was not handled, or the window did not wait until it was closed" );
                std::string why;
                for ( const Picture & p : exposed )
                    if ( !shows( p, winW, winH, current, marks, why ) ) {
                        fail( "%s", why.c_str() );
                        break;
                    }
                ++ctx().compared;
            }
        }
    }
    catch ( const Closed & ) {
        fail( "the window waits although it was closed" );
    }
    expect( displays == beforeDisplays && images == beforeImages && windows.empty(), "resources of the display were left" );
    if ( !misuse.empty() )
        fail( "%s", misuse.c_str() );
}

// ---------------------------------------------------------------------------------------------------------- histogram
class Recorder : public UiWindow
{
public:
    Image shownImage;
    int shows = 0;

protected:
    virtual void _display()
    {
        if ( _shown ) {
            shownImage = _image;
            ++shows;
        }
    }
};

template <typename T>
static void histogram( const std::vector<T> & v )
{
    Recorder window;
    ++ctx().calls;
    DisplayHistogram( window, v );
    ++ctx().compared;
    const bool flat = v.empty() || *std::min_element( v.begin(), v.end() ) == *std::max_element( v.begin(), v.end() );
    if ( flat ) {
        expect( window.shows == 0, "histogram without different values is displayed" );
        return;
    }
    const Image & im = window.shownImage;
    if ( window.shows != 1 || im.width() != v.size() || im.height() != 100 || im.colorCount() != 1 ) {
        fail( "histogram is not displayed properly" );
        return;
    }
    const long double low = *std::min_element( v.begin(), v.end() ), high = *std::max_element( v.begin(), v.end() );
    for ( uint32_t x = 0; x < im.width(); ++x ) {
        const long double want = ( (long double)( v[x] ) - low ) * 100 / ( high - low );
        int top = 0;
        for ( uint32_t y = 0; y < 100; ++y ) {
            const uint8_t p = im.data()[size_t( 99 - y ) * im.rowSize() + x];
            if ( p == 255 && top == int( y ) )
                ++top;
            else if ( p != 0 )
                fail( "column %u is not solid", x );
        }
        // a height with a fraction may be rounded in any way
        if ( top < int( want - 1e-6L ) || top > int( want + 1 - 1e-6L ) )
            fail( "height of column %u is %d instead of %g", x, top, double( want ) );
    }
}

int main( int argc, char ** argv )
{
    init( argc, argv );
    const int depth = ctx().thorough ? 4 : 3;
    for ( int first = 0; first < KINDS; ++first )
        for ( int second = 0; second < OPERATIONS; ++second ) {
            if ( !next() )
                continue;
            label( "window with image %d, operations %d ..", first, second );
            int total = 1;
            for ( int i = 1; i < depth; ++i )
                total *= OPERATIONS;
            for ( int code = 0; code < total; ++code ) {
                phase( "code %d", code );
                run( first, code * OPERATIONS + second, depth );
            }
        }
    if ( next() ) {
        label( "no display" );
        refuseDisplay = true;
        bool threw = false;
        ++ctx().calls;
        try {
            UiWindowX11 window;
        }
        catch ( const penguinVException & ) {
            threw = true;
        }
        refuseDisplay = false;
        expect( threw && displays == 0, "missing display was not reported" );
        ++ctx().compared;
    }
    const uint32_t values[] = { 0, 1, 2, 50, 99, 100, 101, 65535, 42949672, 42949673, 0x7FFFFFFF, 0xFFFFFFFE, 0xFFFFFFFF };
    for ( uint32_t a : values ) {
        if ( !next() )
            continue;
        label( "histograms beginning with %u", a );
        histogram( std::vector<uint32_t>() );
        histogram( std::vector<uint32_t>{ a } );
        for ( uint32_t b : values ) {
            phase( "%u", b );
            histogram( std::vector<uint32_t>{ a, b } );
            for ( uint32_t c : values ) {
                histogram( std::vector<uint32_t>{ a, b, c } );
                histogram( std::vector<double>{ double( a ), -double( b ), double( c ) / 3 } );
                histogram( std::vector<int>{ int( a ), int( b ), int( c ) } );
                for ( uint32_t d : values )
                    histogram( std::vector<uint32_t>{ a, b, c, d, 7 } );
            }
        }
    }
    finish();
    return 0;
}
