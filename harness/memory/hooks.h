// Heap of the harness: every request of the code under test can be made to fail.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

namespace heap
{
    inline bool & tracking()
    {
        static bool t = false;
        return t;
    }
    inline int64_t & failAt()
    {
        static int64_t n = -1;
        return n;
    }
    inline int64_t & requests()
    {
        static int64_t n = 0;
        return n;
    }
    inline int & fillWith() // value of new memory, -1: whatever it is
    {
        static int v = -1;
        return v;
    }
    inline size_t & limit() // bigger requests fail
    {
        static size_t n = SIZE_MAX;
        return n;
    }
    inline std::atomic<int64_t> & live() // objects which are not deleted yet
    {
        static std::atomic<int64_t> n( 0 );
        return n;
    }
    inline void give( void * p )
    {
        if ( p )
            --live();
        free( p );
    }
    inline void * take( size_t size )
    {
        if ( size > limit() )
            throw std::bad_alloc();
        if ( tracking() && ++requests() == failAt() )
            throw std::bad_alloc();
        void * p = malloc( size ? size : 1 );
        if ( p == nullptr )
            throw std::bad_alloc();
        if ( fillWith() >= 0 )
            memset( p, fillWith(), size );
        ++live();
        return p;
    }
    struct Track
    {
        explicit Track( int64_t fail = -1 )
        {
            requests() = 0;
            failAt() = fail;
            tracking() = true;
        }
        ~Track()
        {
            tracking() = false;
            failAt() = -1;
        }
        bool reached() const
        {
            return failAt() > 0 && requests() >= failAt();
        }
    };
}

void * operator new( size_t s )
{
    return heap::take( s );
}
void * operator new[]( size_t s )
{
    return heap::take( s );
}
void operator delete( void * p ) noexcept
{
    heap::give( p );
}
void operator delete[]( void * p ) noexcept
{
    heap::give( p );
}
void operator delete( void * p, size_t ) noexcept
{
    heap::give( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    heap::give( p );
}
