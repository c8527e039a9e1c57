// C36: the window for Windows on a stand-in of the Windows API which keeps the contents of windows.
#include "vp.h"
#include <cmath>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#define _WIN32 1
#include "ui/win/win_ui.cpp"
#undef _WIN32
#include "penguinv_exception.h"

using namespace vp;
typedef penguinV::Image Image;
typedef std::vector<uint32_t> Picture; // 0x00RRGGBB
static const uint32_t NOTHING = 0xFF000000;

// ---------------------------------------------------------------------------------------------------------- stand-in
namespace
{
    struct State // of a window
    {
        int x = 50, y = 60, w = 0, h = 0; // of the client area
        bool visible = false, dirty = false;
        std::string title;
        LONG_PTR user = 0;
        Picture pixel;
        void clear()
        {
            pixel.assign( size_t( w ) * size_t( h ), NOTHING );
        }
        void set( int px, int py, uint32_t v )
        {
            if ( px >= 0 && py >= 0 && px < w && py < h )
                pixel[size_t( py ) * size_t( w ) + size_t( px )] = v & 0xFFFFFF;
        }
    };
    struct Pen
    {
        uint32_t colour = 0;
        bool selected = false, stock = false;
    };
    struct Context
    {
        HWND window = nullptr;
        HGDIOBJ pen = nullptr, brush = nullptr;
        int x = 0, y = 0;
    };
    struct Shown // what a user sees when nothing is left to do
    {
        int w, h;
        Picture pixel;
    };
    enum Action
    {
        UNCOVER,
        KEY,
        GROW,
        STRETCH,
        SHRINK,
        FLATTEN,
        CLOSE
    };
    struct Closed
    {};

    const int FRAME_X = 16, FRAME_Y = 39;
    int screenW = 2000, screenH = 1500, minimalW = 0;
    WNDCLASSEX windowClass;
    int classes = 0;
    std::map<HWND, State> windows;
    std::map<HGDIOBJ, Pen> pens;
    std::map<HDC, Context> contexts;
    std::deque<Action> script;
    std::vector<Shown> shown;
    int paints = 0;
    uintptr_t handles = 0x1000;
    bool quit = false, refuseWindow = false;
    std::string misuse;
    Pen stockPen;
    char stockBrush;

    State * state( HWND w )
    {
        auto i = windows.find( w );
        return i == windows.end() ? nullptr : &i->second;
    }
    LRESULT send( HWND w, UINT msg, WPARAM wp = 0, LPARAM lp = 0 )
    {
        return windowClass.lpfnWndProc( w, msg, wp, lp );
    }
    template <typename T>
    T handle()
    {
        handles += 16;
        return reinterpret_cast<T>( handles );
    }
    HWND visible()
    {
        for ( auto & i : windows )
            if ( i.second.visible )
                return i.first;
        return nullptr;
    }
    void size( HWND w, int width, int height )
    {
        State * s = state( w );
        width = std::max( width, minimalW );
        height = std::max( height, 0 );
        const bool x = s->w != width, y = s->h != height;
        if ( !x && !y )
            return;
        Picture old = s->pixel;
        const int ow = s->w, oh = s->h;
        s->w = width;
        s->h = height;
        s->clear();
        for ( int j = 0; j < std::min( oh, height ); ++j )
            for ( int i = 0; i < std::min( ow, width ); ++i )
                s->pixel[size_t( j ) * size_t( width ) + size_t( i )] = old[size_t( j ) * size_t( ow ) + size_t( i )];
        if ( s->visible && ( ( x && ( windowClass.style & CS_HREDRAW ) ) || ( y && ( windowClass.style & CS_VREDRAW ) ) || width > ow || height > oh ) )
            s->dirty = true;
        send( w, WM_SIZE );
    }
    void look()
    {
        for ( auto & i : windows )
            if ( i.second.visible && !i.second.dirty )
                shown.push_back( Shown{ i.second.w, i.second.h, i.second.pixel } );
    }
}

ATOM RegisterClassEx( const WNDCLASSEX * c )
{
    ++classes;
    windowClass = *c;
    if ( c->cbSize != sizeof *c )
        misuse = "wrong size of the structure of a class";
    return 1;
}
HCURSOR LoadCursor( HINSTANCE, LPCSTR )
{
    return handle<HCURSOR>();
}
HMODULE GetModuleHandle( LPCSTR )
{
    return handle<HMODULE>();
}
int GetSystemMetrics( int which )
{
    return which == SM_CXSCREEN ? screenW : which == SM_CYSCREEN ? screenH : 0;
}
HWND CreateWindowEx( DWORD, LPCSTR name, LPCSTR title, DWORD style, int, int, int, int, HWND, HMENU, HINSTANCE, LPVOID parameter )
{
    if ( refuseWindow || !classes || strcmp( name, "UiWindowWin" ) != 0 )
        return nullptr;
    const HWND w = handle<HWND>();
    State & s = windows[w];
    s.title = title;
    s.w = 300;
    s.h = 200;
    s.clear();
    CREATESTRUCT c;
    c.lpCreateParams = parameter;
    c.hInstance = nullptr;
    if ( !send( w, WM_NCCREATE, 0, reinterpret_cast<LPARAM>( &c ) ) || send( w, WM_CREATE, 0, reinterpret_cast<LPARAM>( &c ) ) == -1 ) {
        windows.erase( w );
        return nullptr;
    }
    if ( style & 0x10000000 ) // WS_VISIBLE
        ShowWindow( w, SW_SHOW );
    return w;
}
BOOL DestroyWindow( HWND w )
{
    if ( !state( w ) )
        return FALSE;
    state( w )->visible = false;
    send( w, WM_DESTROY );
    send( w, WM_NCDESTROY );
    windows.erase( w );
    return TRUE;
}
BOOL IsWindow( HWND w )
{
    return state( w ) != nullptr;
}
BOOL ShowWindow( HWND w, int how )
{
    State * s = state( w );
    if ( !s )
        return FALSE;
    const BOOL before = s->visible;
    if ( how == SW_HIDE )
        s->visible = s->dirty = false;
    else if ( !s->visible ) {
        s->visible = s->dirty = true;
        s->clear();
    }
    return before;
}
BOOL UpdateWindow( HWND w )
{
    State * s = state( w );
    if ( !s )
        return FALSE;
    if ( s->visible && s->dirty )
        send( w, WM_PAINT );
    return TRUE;
}
BOOL InvalidateRect( HWND w, const RECT *, BOOL )
{
    State * s = state( w );
    if ( !s )
        return FALSE;
    if ( s->visible )
        s->dirty = true;
    return TRUE;
}
BOOL MoveWindow( HWND w, int x, int y, int width, int height, BOOL repaint )
{
    State * s = state( w );
    if ( !s )
        return FALSE;
    s->x = x;
    s->y = y;
    const bool dirty = s->dirty;
    size( w, width - FRAME_X, height - FRAME_Y );
    if ( !repaint && state( w ) )
        state( w )->dirty = dirty; // nothing is painted again
    return TRUE;
}
BOOL GetClientRect( HWND w, RECT * r )
{
    State * s = state( w );
    if ( !s )
        return FALSE;
    *r = RECT{ 0, 0, s->w, s->h };
    return TRUE;
}
BOOL GetWindowRect( HWND w, RECT * r )
{
    State * s = state( w );
    if ( !s )
        return FALSE;
    *r = RECT{ s->x, s->y, s->x + s->w + FRAME_X, s->y + s->h + FRAME_Y };
    return TRUE;
}
LONG_PTR SetWindowLongPtr( HWND w, int index, LONG_PTR value )
{
    State * s = state( w );
    if ( !s || index != GWLP_USERDATA )
        return 0;
    std::swap( s->user, value );
    return value;
}
LONG_PTR GetWindowLongPtr( HWND w, int index )
{
    State * s = state( w );
    return s && index == GWLP_USERDATA ? s->user : 0;
}
LRESULT DefWindowProc( HWND w, UINT msg, WPARAM, LPARAM )
{
    if ( msg == WM_NCCREATE )
        return 1;
    if ( msg == WM_CLOSE )
        DestroyWindow( w );
    else if ( msg == WM_PAINT && state( w ) )
        state( w )->dirty = false;
    return 0;
}
BOOL GetMessage( MSG * m, HWND, UINT, UINT )
{
    memset( m, 0, sizeof *m );
    for ( ;; ) {
        if ( quit ) {
            quit = false;
            m->message = WM_QUIT;
            return FALSE;
        }
        for ( auto & i : windows )
            if ( i.second.visible && i.second.dirty ) {
                m->hwnd = i.first;
                m->message = WM_PAINT;
                if ( ++paints > 1000 )
                    throw Closed();
                return TRUE;
            }
        look();
        if ( script.empty() )
            throw Closed(); // waits for ever
        const Action a = script.front();
        script.pop_front();
        const HWND w = visible();
        if ( !w )
            continue; // there is nothing what a user could touch
        State * s = state( w );
        if ( a == UNCOVER ) {
            s->clear();
            s->dirty = true;
        }
        else if ( a == GROW )
            size( w, s->w * 2, s->h * 2 );
        else if ( a == STRETCH )
            size( w, s->w * 3, s->h );
        else if ( a == FLATTEN )
            size( w, s->w, s->h / 2 );
        else if ( a == SHRINK )
            size( w, s->w / 2, s->h / 2 );
        else {
            m->hwnd = w;
            m->message = a == KEY ? WM_KEYDOWN : WM_CLOSE;
            return TRUE;
        }
    }
}
BOOL TranslateMessage( const MSG * )
{
    return FALSE;
}
LRESULT DispatchMessage( const MSG * m )
{
    return state( m->hwnd ) ? send( m->hwnd, m->message, m->wParam, m->lParam ) : 0;
}
void PostQuitMessage( int )
{
    quit = true;
}
HDC BeginPaint( HWND w, PAINTSTRUCT * p )
{
    State * s = state( w );
    if ( !s )
        return nullptr;
    s->dirty = false;
    s->clear();
    const HDC dc = handle<HDC>();
    Context & c = contexts[dc];
    c.window = w;
    c.pen = &stockPen;
    c.brush = &stockBrush;
    p->hdc = dc;
    p->fErase = FALSE;
    p->rcPaint = RECT{ 0, 0, s->w, s->h };
    return dc;
}
BOOL EndPaint( HWND, const PAINTSTRUCT * p )
{
    auto i = contexts.find( p->hdc );
    if ( i == contexts.end() ) {
        misuse = "painting was finished twice";
        return FALSE;
    }
    auto pen = pens.find( i->second.pen );
    if ( pen != pens.end() )
        pen->second.selected = false;
    contexts.erase( i );
    return TRUE;
}
namespace
{
    Context * context( HDC dc )
    {
        auto i = contexts.find( dc );
        if ( i != contexts.end() && state( i->second.window ) )
            return &i->second;
        misuse = "drawing outside of painting";
        return nullptr;
    }
    uint32_t swapped( COLORREF c )
    {
        return ( c & 0xFF ) << 16 | ( c & 0xFF00 ) | ( c >> 16 & 0xFF );
    }
    uint32_t penColour( const Context & c )
    {
        auto p = pens.find( c.pen );
        return p == pens.end() ? 0 : p->second.colour;
    }
}
int StretchDIBits( HDC dc, int x, int y, int w, int h, int sx, int sy, int sw, int sh, const void * bits, const BITMAPINFO * info, UINT usage, DWORD operation )
{
    Context * c = context( dc );
    const BITMAPINFOHEADER & header = info->bmiHeader;
    const bool upsideDown = header.biHeight > 0;
    const int height = std::abs( header.biHeight );
    if ( !c || header.biSize != sizeof header || header.biPlanes != 1 || header.biCompression != BI_RGB || usage != DIB_RGB_COLORS || operation != SRCCOPY || header.biWidth <= 0
         || !height || !bits || sx != 0 || sy != 0 || sw != header.biWidth || sh != height || ( header.biBitCount != 8 && header.biBitCount != 24 && header.biBitCount != 32 ) ) {
        misuse = "picture of an unknown format";
        return 0;
    }
    State * s = state( c->window );
    const size_t row = ( size_t( header.biWidth ) * header.biBitCount + 31 ) / 32 * 4;
    for ( int j = 0; j < h; ++j )
        for ( int i = 0; i < w; ++i ) {
            const size_t px = size_t( int64_t( i ) * sw / w ), line = size_t( int64_t( j ) * sh / h );
            const uint8_t * p = static_cast<const uint8_t *>( bits ) + ( upsideDown ? size_t( height ) - 1 - line : line ) * row;
            uint32_t v;
            if ( header.biBitCount == 8 ) {
                const uint8_t k = p[px];
                const DWORD used = header.biClrUsed ? header.biClrUsed : 256;
                if ( k >= used ) {
                    misuse = "colour outside of the table";
                    return 0;
                }
                RGBQUAD q;
                memcpy( &q, reinterpret_cast<const uint8_t *>( info ) + sizeof header + k * sizeof q, sizeof q );
                v = uint32_t( q.rgbRed ) << 16 | uint32_t( q.rgbGreen ) << 8 | q.rgbBlue;
            }
            else {
                const uint8_t * q = p + px * ( header.biBitCount / 8 );
                v = uint32_t( q[2] ) << 16 | uint32_t( q[1] ) << 8 | q[0];
            }
            s->set( x + i, y + j, v );
        }
    return sh;
}
HPEN CreatePen( int, int, COLORREF colour )
{
    const HPEN p = handle<HPEN>();
    pens[p].colour = swapped( colour );
    return p;
}
HGDIOBJ GetStockObject( int )
{
    return &stockBrush;
}
HGDIOBJ SelectObject( HDC dc, HGDIOBJ o )
{
    Context * c = context( dc );
    if ( !c )
        return nullptr;
    auto i = pens.find( o );
    if ( i == pens.end() && o != &stockPen ) {
        if ( o != &stockBrush )
            misuse = "object which does not exist is selected";
        HGDIOBJ old = c->brush;
        c->brush = o;
        return old;
    }
    auto before = pens.find( c->pen );
    if ( before != pens.end() )
        before->second.selected = false;
    if ( i != pens.end() )
        i->second.selected = true;
    HGDIOBJ old = c->pen;
    c->pen = o;
    return old;
}
BOOL DeleteObject( HGDIOBJ o )
{
    if ( o == &stockPen || o == &stockBrush )
        return TRUE;
    auto i = pens.find( o );
    if ( i == pens.end() || i->second.selected ) {
        misuse = "object is deleted twice or while it is used";
        return FALSE;
    }
    pens.erase( i );
    return TRUE;
}
BOOL MoveToEx( HDC dc, int x, int y, POINT * p )
{
    Context * c = context( dc );
    if ( !c )
        return FALSE;
    if ( p )
        *p = POINT{ c->x, c->y };
    c->x = x;
    c->y = y;
    return TRUE;
}
BOOL LineTo( HDC dc, int x, int y ) // draws everything but the last pixel
{
    Context * c = context( dc );
    if ( !c )
        return FALSE;
    State * s = state( c->window );
    const int64_t dx = int64_t( x ) - c->x, dy = int64_t( y ) - c->y, n = std::max( std::abs( dx ), std::abs( dy ) );
    if ( n > 10000 )
        misuse = "line of an unlikely length";
    else
        for ( int64_t i = 0; i < n; ++i )
            s->set( int( c->x + ( 2 * dx * i + ( dx < 0 ? -n : n ) ) / ( 2 * n ) ), int( c->y + ( 2 * dy * i + ( dy < 0 ? -n : n ) ) / ( 2 * n ) ), penColour( *c ) );
    c->x = x;
    c->y = y;
    return TRUE;
}
BOOL Polyline( HDC dc, const POINT * p, int n )
{
    Context * c = context( dc );
    if ( !c || n < 2 )
        return FALSE;
    const int x = c->x, y = c->y;
    MoveToEx( dc, p[0].x, p[0].y, nullptr );
    for ( int i = 1; i < n; ++i )
        LineTo( dc, p[i].x, p[i].y );
    c->x = x;
    c->y = y;
    return TRUE;
}
COLORREF SetPixel( HDC dc, int x, int y, COLORREF colour )
{
    Context * c = context( dc );
    if ( c )
        state( c->window )->set( x, y, swapped( colour ) );
    return colour;
}
BOOL SetPixelV( HDC dc, int x, int y, COLORREF colour )
{
    SetPixel( dc, x, y, colour );
    return TRUE;
}
BOOL Arc( HDC dc, int left, int top, int right, int bottom, int xs, int ys, int xe, int ye )
{
    Context * c = context( dc );
    if ( !c )
        return FALSE;
    if ( xs != xe || ys != ye )
        misuse = "part of an ellipse";
    State * s = state( c->window );
    const double cx = ( left + right - 1 ) / 2.0, cy = ( top + bottom - 1 ) / 2.0, rx = ( right - left - 1 ) / 2.0, ry = ( bottom - top - 1 ) / 2.0;
    if ( rx < 0 || ry < 0 )
        return TRUE;
    for ( int k = 0; k < 720; ++k ) {
        const double a = k * 3.14159265358979323846 / 360;
        s->set( int( std::lround( cx + rx * std::cos( a ) ) ), int( std::lround( cy + ry * std::sin( a ) ) ), penColour( *c ) );
    }
    return TRUE;
}
BOOL Ellipse( HDC dc, int left, int top, int right, int bottom )
{
    return Arc( dc, left, top, right, bottom, 0, 0, 0, 0 );
}
void DebugBreak()
{
    misuse = "the window stops the program for debugging";
}

// -------------------------------------------------------------------------------------------------------------- model
static const uint32_t imageW[] = { 0, 1, 3, 2, 5, 4, 9, 2, 3, 2 }, imageH[] = { 0, 1, 2, 3, 4, 5, 8, 2, 2, 2 };
static const uint8_t imageC[] = { 1, 1, 1, 3, 3, 1, 3, 4, 2, 5 }, imageA[] = { 1, 4, 8, 4, 16, 1, 1, 1, 4, 1 };
static const int KINDS = 10;

static Image make( uint32_t w, uint32_t h, uint8_t colours, uint8_t alignment, uint32_t kind )
{
    Image i;
    i.setColorCount( colours );
    i.setAlignment( alignment );
    i.resize( w, h );
    for ( uint32_t k = 0; k < i.rowSize() * i.height(); ++k )
        i.data()[k] = uint8_t( k * 37 + kind * 11 + 200 );
    return i;
}
static Image make( int kind )
{
    return make( imageW[kind], imageH[kind], imageC[kind], imageA[kind], uint32_t( kind ) );
}

struct Shape
{
    int type; // point, line, ellipse, rectangle
    double x, y, a, b;
    uint32_t colour;
};

typedef std::pair<int, int> Position;
struct Trace // of a shape in a window
{
    std::set<Position> must, may;
    std::vector<std::vector<Position>> one; // one of these at least
};

static void lineTrace( Trace & t, double x1, double y1, double x2, double y2, double fx, double fy, int sx, int sy )
{
    const int ax = int( x1 * fx ), ay = int( y1 * fy ), bx = int( x2 * fx ), by = int( y2 * fy );
    const bool exact = !sx && !sy;
    const int rx = std::max( 1, sx ), ry = std::max( 1, sy );
    const int n = std::max( std::abs( bx - ax ), std::abs( by - ay ) );
    for ( int i = 0; i <= n; ++i ) {
        const double px = n ? ax + double( bx - ax ) * i / n : ax, py = n ? ay + double( by - ay ) * i / n : ay;
        const int ix = int( std::lround( px ) ), iy = int( std::lround( py ) );
        const bool sharp = exact && px == ix && py == iy;
        if ( sharp )
            t.must.insert( Position( ix, iy ) );
        std::vector<Position> group;
        for ( int dy = -ry; dy <= ry; ++dy )
            for ( int dx = -rx; dx <= rx; ++dx )
                if ( ( !dx && !dy ) || !exact || ( !sharp && std::fabs( px - ( ix + dx ) ) < 1 && std::fabs( py - ( iy + dy ) ) < 1 ) ) {
                    t.may.insert( Position( ix + dx, iy + dy ) );
                    group.push_back( Position( ix + dx, iy + dy ) );
                }
        t.one.push_back( group );
    }
}

static Trace trace( const Shape & s, double fx, double fy, int sx, int sy )
{
    Trace t;
    if ( s.type == 0 ) {
        const int x = int( s.x * fx ), y = int( s.y * fy ), reach = std::max( 1, int( std::ceil( std::min( fx, fy ) ) ) );
        std::vector<Position> group;
        for ( int dy = -reach - sy; dy <= reach + sy; ++dy )
            for ( int dx = -reach - sx; dx <= reach + sx; ++dx ) {
                t.may.insert( Position( x + dx, y + dy ) );
                if ( std::abs( dx ) <= sx && std::abs( dy ) <= sy )
                    group.push_back( Position( x + dx, y + dy ) );
            }
        t.one.push_back( group );
    }
    else if ( s.type == 1 )
        lineTrace( t, s.x, s.y, s.a, s.b, fx, fy, sx, sy );
    else if ( s.type == 3 ) {
        lineTrace( t, s.x, s.y, s.x + s.a, s.y, fx, fy, sx, sy );
        lineTrace( t, s.x, s.y, s.x, s.y + s.b, fx, fy, sx, sy );
        lineTrace( t, s.x + s.a, s.y, s.x + s.a, s.y + s.b, fx, fy, sx, sy );
        lineTrace( t, s.x, s.y + s.b, s.x + s.a, s.y + s.b, fx, fy, sx, sy );
    }
    else
        for ( int k = 0; k < 720; ++k ) {
            const double a = k * 3.14159265358979323846 / 360, near = sx || sy ? 2.6 : 1.6, px = ( s.x + s.a * std::cos( a ) ) * fx, py = ( s.y + s.b * std::sin( a ) ) * fy;
            std::vector<Position> group;
            for ( int y = int( std::floor( py - near ) ); y <= int( std::ceil( py + near ) ); ++y )
                for ( int x = int( std::floor( px - near ) ); x <= int( std::ceil( px + near ) ); ++x )
                    if ( std::fabs( x - px ) < near && std::fabs( y - py ) < near ) {
                        t.may.insert( Position( x, y ) );
                        group.push_back( Position( x, y ) );
                    }
            t.one.push_back( group );
        }
    return t;
}

static uint32_t colourOf( const Image & im, int x, int y )
{
    const uint8_t * d = im.data() + size_t( y ) * im.rowSize() + size_t( x ) * im.colorCount();
    return im.colorCount() == 1 ? d[0] * 0x010101u : uint32_t( d[0] | d[1] << 8 | d[2] << 16 );
}

static bool shows( const Shown & p, const Image & im, const std::vector<Shape> & shapes, std::string & why )
{
    char text[200];
    const int W = int( im.width() ), H = int( im.height() );
    if ( im.empty() ) {
        for ( uint32_t got : p.pixel ) {
            bool known = got == NOTHING;
            for ( const Shape & s : shapes )
                known = known || got == s.colour;
            if ( !known ) {
                why = "a picture is shown which was replaced by an empty one";
                return false;
            }
        }
        return true;
    }
    const double fx = double( p.w ) / W, fy = double( p.h ) / H;
    // an image which is bigger than the screen is reduced
    const int limitW = screenW * 95 / 100, limitH = screenH * 95 / 100;
    const double scale = limitW > 0 && limitH > 0 ? std::min( 1.0, std::min( double( limitW ) / W, double( limitH ) / H ) ) : 1;
    const bool reduced = scale < 1, natural = p.w == W && p.h == H;
    const int sx = reduced ? int( std::ceil( p.w / std::max( 1.0, std::floor( scale * W ) ) ) ) + 1 : natural ? 0 : 1;
    const int sy = reduced ? int( std::ceil( p.h / std::max( 1.0, std::floor( scale * H ) ) ) ) + 1 : natural ? 0 : 1;
    const int margin = reduced ? int( std::ceil( 1 / scale ) ) + 1 : 1;
    std::vector<Trace> traces;
    for ( const Shape & s : shapes )
        traces.push_back( trace( s, fx, fy, sx, sy ) );
    std::vector<bool> covered( p.pixel.size(), false ); // by the colour of a shape which may be there
    for ( int y = 0; y < p.h; ++y )
        for ( int x = 0; x < p.w; ++x ) {
            const size_t k = size_t( y ) * size_t( p.w ) + size_t( x );
            const uint32_t got = p.pixel[k];
            bool must = false, good = false;
            for ( size_t i = 0; i < shapes.size(); ++i ) {
                must = must || traces[i].must.count( Position( x, y ) );
                if ( got == shapes[i].colour && traces[i].may.count( Position( x, y ) ) )
                    good = covered[k] = true;
            }
            if ( !good && !must ) {
                if ( natural && !reduced )
                    good = got == colourOf( im, x, y );
                else {
                    const int x1 = std::max( 0, int( std::floor( x / fx ) ) - margin - int( 1 / fx ) ), x2 = std::min( W - 1, int( std::ceil( ( x + 1 ) / fx ) ) + margin + int( 1 / fx ) );
                    const int y1 = std::max( 0, int( std::floor( y / fy ) ) - margin - int( 1 / fy ) ), y2 = std::min( H - 1, int( std::ceil( ( y + 1 ) / fy ) ) + margin + int( 1 / fy ) );
                    const bool wholeX = !reduced && p.w % W == 0, wholeY = !reduced && p.h % H == 0;
                    for ( int j = wholeY ? y / ( p.h / H ) : y1; j <= ( wholeY ? y / ( p.h / H ) : y2 ) && !good; ++j )
                        for ( int i = wholeX ? x / ( p.w / W ) : x1; i <= ( wholeX ? x / ( p.w / W ) : x2 ) && !good; ++i )
                            good = got == colourOf( im, i, j );
                }
            }
            if ( !good ) {
                snprintf( text, sizeof text, "pixel %d,%d of %dx%d is %06x%s", x, y, p.w, p.h, got, must ? " although something is drawn there" : " which is not the picture" );
                why = text;
                return false;
            }
        }
    for ( size_t i = 0; i < shapes.size(); ++i )
        for ( const std::vector<Position> & group : traces[i].one ) {
            bool outside = false, found = false;
            for ( const Position & q : group ) {
                if ( q.first < 0 || q.second < 0 || q.first >= p.w || q.second >= p.h )
                    outside = true;
                else
                    found = found || covered[size_t( q.second ) * size_t( p.w ) + size_t( q.first )];
            }
            if ( !outside && !found ) {
                snprintf( text, sizeof text, "shape %zu is not drawn near %d,%d of %dx%d", i, group[0].first, group[0].second, p.w, p.h );
                why = text;
                return false;
            }
        }
    return true;
}

static const Shape library[] = { { 0, 1, 1, 0, 0, 0xFF0000 },       { 0, 3, 0, 0, 0, 0x00FE01 }, { 1, 0, 1, 3, 1, 0x0203FD }, { 1, 4, 4, 1, 1, 0x123456 },
                                 { 2, 4, 4, 2, 3, 0x654321 }, { 3, 1, 1, 3, 2, 0xABCDEF }, { 1, 2, 3, 2, 3, 0x00FFFF } };
static const int SHAPES = 7, SHOWS = 3, OPERATIONS = SHOWS + KINDS + SHAPES;

static void scriptOf( int n )
{
    script.clear();
    if ( n == 1 )
        script = { UNCOVER, KEY, UNCOVER };
    else if ( n == 2 )
        script = { GROW, STRETCH, FLATTEN, UNCOVER, SHRINK, SHRINK };
    script.push_back( CLOSE );
}

static void draw( UiWindow & w, const Shape & s )
{
    const PaintColor c( uint8_t( s.colour >> 16 ), uint8_t( s.colour >> 8 ), uint8_t( s.colour ) );
    if ( s.type == 0 )
        w.drawPoint( Point2d( s.x, s.y ), c );
    else if ( s.type == 1 )
        w.drawLine( Point2d( s.x, s.y ), Point2d( s.a, s.b ), c );
    else if ( s.type == 2 )
        w.drawEllipse( Point2d( s.x, s.y ), s.a, s.b, c );
    else
        w.drawRectangle( Point2d( s.x, s.y ), s.a, s.b, c );
}

static bool refused( int kind )
{
    return imageC[kind] == 2 || imageC[kind] == 5;
}
static bool open( int kind ) // may be displayed or refused
{
    return imageC[kind] == 4;
}

static void reset()
{
    windows.clear();
    pens.clear();
    contexts.clear();
    script.clear();
    shown.clear();
    misuse.clear();
    quit = false;
    paints = 0;
}

static void ended()
{
    if ( !misuse.empty() )
        fail( "%s", misuse.c_str() );
    expect( windows.empty(), "a window was left" );
    expect( pens.empty() && contexts.empty(), "objects of drawing were left" );
    expect( !quit, "a request to quit was left for the program" );
}

static void judge( const Image & current, const std::vector<Shape> & shapes )
{
    std::string why;
    for ( const Shown & p : shown )
        if ( !shows( p, current, shapes, why ) ) {
            fail( "%s", why.c_str() );
            break;
        }
    ++ctx().compared;
}

static void fits( const Image & image )
{
    if ( windows.size() != 1 || image.empty() )
        return;
    const State & s = windows.begin()->second;
    const int W = int( image.width() ), H = int( image.height() ), limitW = screenW * 95 / 100, limitH = screenH * 95 / 100;
    if ( screenW <= 0 || screenH <= 0 || ( W <= limitW && H <= limitH ) )
        expect( s.w == std::max( W, minimalW ) && s.h == H, "window does not fit its image" );
    else {
        const double scale = std::min( double( limitW ) / W, double( limitH ) / H );
        expect( s.w >= 1 && s.h >= 1 && s.w <= limitW && s.h <= limitH, "window does not fit the screen" );
        expect( std::fabs( s.w - scale * W ) <= 1 && std::fabs( s.h - scale * H ) <= 1, "window does not keep the shape of its image" );
    }
}

static void run( int first, int code, int depth )
{
    reset();
    Image current = make( first );
    std::vector<Shape> shapes;
    bool active = false;
    ++ctx().calls;
    try {
        std::unique_ptr<UiWindowWin> window;
        try {
            window.reset( new UiWindowWin( current, "title" ) );
        }
        catch ( const penguinVException & ) {
            ++ctx().refused;
        }
        expect( open( first ) || bool( window ) != refused( first ), "wrong accept or reject decision of an image" );
        if ( window ) {
            expect( windows.size() == 1 && !visible() && windows.begin()->second.title == "title", "window is visible too early or has another title" );
            fits( current );
            for ( int step = 0, rest = code; step < depth && ctx().failuresSeen.size() < 20; ++step, rest /= OPERATIONS ) {
                const int op = rest % OPERATIONS;
                bool threw = false, may = true, mustNot = true;
                Image next;
                shown.clear();
                ++ctx().calls;
                if ( op < SHOWS )
                    scriptOf( op );
                else
                    scriptOf( step % 2 );
                const size_t actions = script.size();
                try {
                    if ( op < SHOWS ) {
                        active = true;
                        window->show();
                    }
                    else if ( op < SHOWS + KINDS ) {
                        const int kind = op - SHOWS;
                        next = make( kind );
                        may = !refused( kind );
                        mustNot = !refused( kind ) && !open( kind );
                        window->setImage( next );
                        current = next;
                        if ( shown.empty() )
                            fits( next );
                    }
                    else {
                        shapes.push_back( library[op - SHOWS - KINDS] );
                        draw( *window, shapes.back() );
                    }
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++ctx().refused;
                }
                expect( threw ? !mustNot : may, "wrong accept or reject decision" );
                if ( !misuse.empty() )
                    fail( "%s", misuse.c_str() );
                expect( !visible(), "a window is still visible after it was closed" );
                if ( !active )
                    expect( shown.empty() && script.size() == actions, "something is displayed before the window is shown" );
                else if ( op < SHOWS )
                    expect( shown.size() == actions && script.empty(), "the window is not shown, or did not wait until it was closed" );
                judge( current, shapes );
            }
        }
    }
    catch ( const Closed & ) {
        fail( "the window waits although it was closed" );
    }
    ended();
}

// a picture in one window; what is left of others does not matter
static void single( const Image & image, const std::vector<Shape> & shapes, int actions )
{
    reset();
    ++ctx().calls;
    try {
        UiWindowWin window( image, "" );
        fits( image );
        for ( const Shape & s : shapes )
            draw( window, s );
        scriptOf( actions );
        const size_t count = script.size();
        window.show();
        expect( shown.size() == count, "the window is not shown" );
        judge( image, shapes );
    }
    catch ( const Closed & ) {
        fail( "the window waits although it was closed" );
    }
    ended();
}

static void two( int order )
{
    reset();
    ++ctx().calls;
    const Image a = make( 4 ), b = make( 5 );
    const std::vector<Shape> none, mark( 1, library[0] );
    try {
        std::unique_ptr<UiWindowWin> first( new UiWindowWin( a, "first" ) ), second( new UiWindowWin( b, "second" ) );
        for ( int step = 0; step < 4; ++step ) {
            const int op = order >> ( 2 * step ) & 3;
            shown.clear();
            scriptOf( step % 3 );
            const size_t count = script.size();
            if ( op == 0 && first ) {
                first->show();
                expect( shown.size() == count, "the first window is not shown" );
                judge( a, none );
            }
            else if ( op == 1 && second ) {
                second->show();
                expect( shown.size() == count, "the second window is not shown" );
                judge( b, none );
            }
            else if ( op == 2 )
                first.reset();
            else
                second.reset();
            expect( !quit, "a request to quit was left for the program" );
        }
    }
    catch ( const Closed & ) {
        fail( "the window waits although it was closed" );
    }
    ended();
}

int main( int argc, char ** argv )
{
    init( argc, argv );
    const int depth = ctx().thorough ? 4 : 3;
    for ( int kind = 0; kind < 3; ++kind )
        for ( int first = 0; first < KINDS; ++first )
            for ( int second = 0; second < OPERATIONS; ++second ) {
                if ( !next() )
                    continue;
                static const char * const names[] = { "", "wide ", "small screen, " };
                label( "%swindow with image %d, operations %d ..", names[kind], first, second );
                minimalW = kind == 1 ? 12 : 0;
                if ( kind == 2 )
                    screenW = screenH = 8;
                const int length = kind == 1 ? depth - 1 : depth;
                int total = 1;
                for ( int i = 1; i < length; ++i )
                    total *= OPERATIONS;
                for ( int code = 0; code < total; ++code ) {
                    phase( "code %d", code );
                    run( first, code * OPERATIONS + second, length );
                }
                minimalW = 0;
                screenW = 2000;
                screenH = 1500;
            }
    for ( uint32_t w = 1; w <= 9; ++w ) {
        if ( !next() )
            continue;
        label( "images of width %u", w );
        for ( uint32_t h = 1; h <= 9; ++h )
            for ( uint8_t c : { 1, 3 } )
                for ( uint8_t a : { 1, 4, 16 } )
                    for ( int s = 0; s < 3; ++s ) {
                        phase( "%ux%u, %d channels, alignment %d, script %d", w, h, c, a, s );
                        single( make( w, h, c, a, w ), std::vector<Shape>(), s );
                    }
    }
    const uint32_t sizes[] = { 1, 2, 18, 19, 20, 21, 39, 40, 57, 100 };
    for ( uint32_t w : sizes ) {
        if ( !next() )
            continue;
        label( "images of width %u on a small screen", w );
        screenW = 21;
        screenH = 17;
        for ( uint32_t h : sizes )
            for ( uint8_t c : { 1, 3 } )
                for ( int s = 0; s < 3; ++s ) {
                    phase( "%ux%u, %d channels, script %d", w, h, c, s );
                    std::vector<Shape> shapes;
                    single( make( w, h, c, 1, w ), shapes, s );
                    shapes.push_back( Shape{ 0, double( w / 2 ), double( h / 2 ), 0, 0, 0xFF0000 } );
                    shapes.push_back( Shape{ 1, 0, 0, double( w - 1 ), double( h - 1 ), 0x00FF01 } );
                    single( make( w, h, c, 1, w ), shapes, s );
                }
        screenW = 0;
        screenH = 0;
        single( make( w, 3, 1, 1, w ), std::vector<Shape>(), 1 );
        screenW = 2000;
        screenH = 1500;
    }
    for ( int kind = 0; kind < 2; ++kind ) {
        if ( !next() )
            continue;
        label( "very %s image", kind ? "high" : "wide" );
        const uint32_t length = 4000000;
        Image i = make( kind ? 1 : length, kind ? length : 1, 1, 1, 0 );
        uint8_t * d = i.data();
        for ( uint32_t k = 0; k < length; ++k )
            d[k] = uint8_t( uint64_t( k ) * 255 / length );
        reset();
        ++ctx().calls;
        try {
            UiWindowWin window( i, "" );
            scriptOf( 0 );
            window.show();
        }
        catch ( const Closed & ) {
            fail( "the window waits although it was closed" );
        }
        expect( !shown.empty(), "the window is not shown" );
        for ( const Shown & p : shown )
            for ( size_t k = 0; k < p.pixel.size(); ++k ) {
                const double want = 255.0 * double( k ) / double( p.pixel.size() );
                if ( std::fabs( double( p.pixel[k] & 0xFF ) - want ) > 2 ) {
                    fail( "value %zu of %zu is %u", k, p.pixel.size(), p.pixel[k] & 0xFF );
                    break;
                }
            }
        ++ctx().compared;
        ended();
    }
    const Image base = make( 11, 10, 3, 4, 3 );
    for ( int x = -1; x <= 11; ++x ) {
        if ( !next() )
            continue;
        label( "shapes from column %d", x );
        for ( int y = -1; y <= 10; ++y ) {
            for ( int s = 0; s < 3; ++s ) {
                phase( "point %d,%d", x, y );
                single( base, { Shape{ 0, double( x ), double( y ), 0, 0, 0x10FF20 } }, s );
            }
            for ( int a = -1; a <= 11; ++a )
                for ( int b = -1; b <= 10; ++b ) {
                    phase( "line %d,%d - %d,%d", x, y, a, b );
                    single( base, { Shape{ 1, double( x ), double( y ), double( a ), double( b ), 0x20FF10 } }, 0 );
                    if ( a >= x && b >= y ) {
                        phase( "rectangle %d,%d - %d,%d", x, y, a, b );
                        single( base, { Shape{ 3, double( x ), double( y ), double( a - x ), double( b - y ), 0x20FF10 } }, ( a + b ) & 1 ? 2 : 0 );
                    }
                }
        }
        for ( int y = 0; y < 10; y += 3 )
            for ( int a = 1; a <= 6; ++a )
                for ( int b = 1; b <= 6; ++b ) {
                    phase( "ellipse %d,%d radii %d,%d", x, y, a, b );
                    single( base, { Shape{ 2, double( x ), double( y ), double( a ), double( b ), 0xFF00F0 } }, ( a + b ) & 1 ? 2 : 0 );
                }
    }
    if ( next() ) {
        label( "two windows" );
        for ( int order = 0; order < 256; ++order ) {
            phase( "order %d", order );
            two( order );
        }
    }
    if ( next() ) {
        label( "no window" );
        reset();
        refuseWindow = true;
        bool threw = false;
        ++ctx().calls;
        try {
            UiWindowWin window;
        }
        catch ( const penguinVException & ) {
            threw = true;
        }
        refuseWindow = false;
        expect( threw, "missing window was not reported" );
        ended();
        ++ctx().compared;
    }
    expect( classes <= 1, "the class of windows was registered more than once" );
    finish();
    return 0;
}
