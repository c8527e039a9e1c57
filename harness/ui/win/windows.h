// Declarations of those parts of the Windows API which the window for Windows uses, or could use. Their behaviour is in ../win.cpp.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#define __stdcall
#define CALLBACK
#define WINAPI
#define TRUE 1
#define FALSE 0
typedef int BOOL;
typedef uint8_t BYTE;
typedef uint16_t WORD;
typedef uint32_t DWORD, COLORREF;
typedef unsigned int UINT;
typedef int32_t LONG;
typedef WORD ATOM;
typedef intptr_t LONG_PTR, LPARAM, LRESULT;
typedef uintptr_t WPARAM, UINT_PTR;
typedef void * HANDLE;
typedef void * HGDIOBJ;
typedef void * LPVOID;
struct HWND__;
struct HDC__;
struct HPEN__;
struct HBRUSH__;
struct HINSTANCE__;
struct HCURSOR__;
struct HMENU__;
typedef HWND__ * HWND;
typedef HDC__ * HDC;
typedef HPEN__ * HPEN;
typedef HBRUSH__ * HBRUSH;
typedef HINSTANCE__ * HINSTANCE;
typedef HINSTANCE__ * HMODULE;
typedef HCURSOR__ * HCURSOR;
typedef HCURSOR__ * HICON;
typedef HMENU__ * HMENU;
typedef const char * LPCSTR;
typedef LRESULT ( *WNDPROC )( HWND, UINT, WPARAM, LPARAM );
struct RECT
{
    LONG left, top, right, bottom;
};
struct POINT
{
    LONG x, y;
};
struct RGBQUAD
{
    BYTE rgbBlue, rgbGreen, rgbRed, rgbReserved;
};
struct BITMAPINFOHEADER
{
    DWORD biSize;
    LONG biWidth, biHeight;
    WORD biPlanes, biBitCount;
    DWORD biCompression, biSizeImage;
    LONG biXPelsPerMeter, biYPelsPerMeter;
    DWORD biClrUsed, biClrImportant;
};
struct BITMAPINFO
{
    BITMAPINFOHEADER bmiHeader;
    RGBQUAD bmiColors[1];
};
struct WNDCLASSEXA
{
    UINT cbSize, style;
    WNDPROC lpfnWndProc;
    int cbClsExtra, cbWndExtra;
    HINSTANCE hInstance;
    HICON hIcon;
    HCURSOR hCursor;
    HBRUSH hbrBackground;
    LPCSTR lpszMenuName, lpszClassName;
    HICON hIconSm;
};
struct CREATESTRUCTA
{
    LPVOID lpCreateParams;
    HINSTANCE hInstance;
};
struct PAINTSTRUCT
{
    HDC hdc;
    BOOL fErase;
    RECT rcPaint;
};
struct MSG
{
    HWND hwnd;
    UINT message;
    WPARAM wParam;
    LPARAM lParam;
};
typedef WNDCLASSEXA WNDCLASSEX;
typedef CREATESTRUCTA CREATESTRUCT, *LPCREATESTRUCT;
enum
{
    WM_CREATE = 1,
    WM_DESTROY = 2,
    WM_SIZE = 5,
    WM_PAINT = 15,
    WM_CLOSE = 16,
    WM_QUIT = 18,
    WM_ERASEBKGND = 20,
    WM_SHOWWINDOW = 24,
    WM_NCCREATE = 0x81,
    WM_NCDESTROY = 0x82,
    WM_KEYDOWN = 0x100,
    CS_VREDRAW = 1,
    CS_HREDRAW = 2,
    COLOR_WINDOW = 5,
    WS_OVERLAPPEDWINDOW = 0xCF0000,
    CW_USEDEFAULT = int( 0x80000000 ),
    GWLP_USERDATA = -21,
    SM_CXSCREEN = 0,
    SM_CYSCREEN = 1,
    SW_HIDE = 0,
    SW_SHOWNORMAL = 1,
    SW_SHOW = 5,
    SW_SHOWDEFAULT = 10,
    PS_SOLID = 0,
    DIB_RGB_COLORS = 0,
    BI_RGB = 0,
    NULL_BRUSH = 5,
    HOLLOW_BRUSH = 5
};
static const DWORD SRCCOPY = 0x00CC0020;
#define IDC_CROSS reinterpret_cast<LPCSTR>( 32515 )
#define RGB( r, g, b ) ( COLORREF( BYTE( r ) ) | COLORREF( BYTE( g ) ) << 8 | COLORREF( BYTE( b ) ) << 16 )

ATOM RegisterClassEx( const WNDCLASSEX * c );
HCURSOR LoadCursor( HINSTANCE, LPCSTR );
HMODULE GetModuleHandle( LPCSTR );
int GetSystemMetrics( int which );
HWND CreateWindowEx( DWORD, LPCSTR name, LPCSTR title, DWORD, int x, int y, int w, int h, HWND, HMENU, HINSTANCE, LPVOID parameter );
BOOL DestroyWindow( HWND );
BOOL IsWindow( HWND );
BOOL ShowWindow( HWND, int how );
BOOL UpdateWindow( HWND );
BOOL InvalidateRect( HWND, const RECT *, BOOL );
BOOL MoveWindow( HWND, int x, int y, int w, int h, BOOL repaint );
BOOL GetClientRect( HWND, RECT * );
BOOL GetWindowRect( HWND, RECT * );
LONG_PTR SetWindowLongPtr( HWND, int index, LONG_PTR value );
LONG_PTR GetWindowLongPtr( HWND, int index );
LRESULT DefWindowProc( HWND, UINT, WPARAM, LPARAM );
BOOL GetMessage( MSG *, HWND, UINT, UINT );
BOOL TranslateMessage( const MSG * );
LRESULT DispatchMessage( const MSG * );
void PostQuitMessage( int );
HDC BeginPaint( HWND, PAINTSTRUCT * );
BOOL EndPaint( HWND, const PAINTSTRUCT * );
int StretchDIBits( HDC, int x, int y, int w, int h, int sx, int sy, int sw, int sh, const void *, const BITMAPINFO *, UINT, DWORD );
HPEN CreatePen( int, int, COLORREF );
HGDIOBJ SelectObject( HDC, HGDIOBJ );
HGDIOBJ GetStockObject( int );
BOOL DeleteObject( HGDIOBJ );
BOOL MoveToEx( HDC, int, int, POINT * );
BOOL LineTo( HDC, int, int );
BOOL Polyline( HDC, const POINT *, int );
COLORREF SetPixel( HDC, int, int, COLORREF );
BOOL SetPixelV( HDC, int, int, COLORREF );
BOOL Arc( HDC, int, int, int, int, int, int, int, int );
BOOL Ellipse( HDC, int, int, int, int );
void DebugBreak();
