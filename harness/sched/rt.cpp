// Controlled-scheduler stateless model checker (runtime). See DESIGN.md, "Schedule exploration".
//
// The code under test is compiled with -fsanitize=thread, but linked with this file instead of the sanitizer's runtime:
// every plain access arrives in __tsan_read*/__tsan_write* (used for an exact happens-before race detector and for
// detecting accesses to freed memory) and every atomic access in __tsan_atomic* (a scheduling point). The pthread functions
// the C++ library uses are defined here as well. One execution is a sequence of choices; the explorer enumerates them
// depth first, pruning a state whose happens-before signature was already explored with at least the same budget.
#include "rt.h"
#include <cxxabi.h>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void * __libc_malloc( size_t );
void __libc_free( void * );
void * __libc_calloc( size_t, size_t );
void * __libc_realloc( void *, size_t );
void * __libc_memalign( size_t, size_t );
extern char __data_start[], _edata[], __bss_start[], _end[];
extern char __start_vprt[], __stop_vprt[];
}

namespace
{
    const int MAX_THREADS = 12;
    const size_t STACK_SIZE = 256 * 1024;
    const size_t ARENA_PER_THREAD = 64 * 1024 * 1024;
    const size_t ARENA_SIZE = ARENA_PER_THREAD * MAX_THREADS;
    const size_t SHADOW_SLOTS = 8;
    const int MAX_POINTS = 200000;
    const int SPIN_LIMIT = 300;

    typedef uint64_t u64;

    inline u64 mix( u64 a, u64 b )
    {
        u64 x = a ^ ( b + 0x9e3779b97f4a7c15ULL + ( a << 6 ) + ( a >> 2 ) );
        x ^= x >> 30;
        x *= 0xbf58476d1ce4e5b9ULL;
        x ^= x >> 27;
        x *= 0x94d049bb133111ebULL;
        x ^= x >> 31;
        return x;
    }

    enum OpKind
    {
        OP_NONE,
        OP_START,
        OP_LOCK,
        OP_TRYLOCK,
        OP_UNLOCK,
        OP_COND_WAIT, // about to start waiting
        OP_COND_BLOCKED, // waiting for a signal
        OP_COND_BLOCKED_TIMED,
        OP_SIGNAL,
        OP_BROADCAST,
        OP_CREATE,
        OP_JOIN,
        OP_LOAD,
        OP_STORE,
        OP_RMW,
        OP_FENCE,
        OP_YIELD,
        OP_POINT,
        OP_GUARD,
        OP_RDLOCK,
        OP_WRLOCK,
        OP_EXIT
    };
    const char * opName[] = {"none",   "start", "lock", "trylock", "unlock", "cond-wait", "blocked-on-condition", "blocked-on-condition(timed)", "signal", "broadcast",
                             "create", "join",  "load", "store",   "rmw",    "fence",     "yield",                "point",                       "guard",  "rdlock",
                             "wrlock", "exit"};

    struct VC
    {
        uint32_t c[MAX_THREADS];
        void join( const VC & o )
        {
            for ( int i = 0; i < MAX_THREADS; ++i )
                if ( o.c[i] > c[i] )
                    c[i] = o.c[i];
        }
        void clear()
        {
            memset( c, 0, sizeof c );
        }
    };

    struct Obj // synchronisation object, by address
    {
        uintptr_t addr;
        u64 wh; // hash of the last modifying event
        u64 rh; // commutative hash of the reading events since then
        int owner; // mutex owner or -1
        int depth; // recursive ownership
        int readers;
        uint32_t gen;
        VC vc;
    };

    struct Thread
    {
        void * sp;
        char * stack;
        bool used, finished, joined, detached;
        OpKind op;
        Obj * obj; // object of pending op
        Obj * reacquire; // mutex to take again after a wait
        bool signaled;
        bool timedOut;
        int joinTarget;
        void * ( *fn )( void * );
        void * arg;
        void * ret;
        u64 h;
        u64 waitSeq;
        VC vc;
        char eh[32]; // __cxa_eh_globals
        size_t bump;
        int spin;
        bool yielded;
    };

    struct Access
    {
        uint32_t clk;
        uint8_t tid, mask, write, atomic;
    };
    struct Granule
    {
        uint32_t gen;
        uint8_t n;
        uint8_t freed; // 1: memory of this granule was freed in this execution
        Access a[SHADOW_SLOTS];
    };

    const size_t OBJ_TABLE = 1 << 12;
    const size_t GRAN_TABLE = 1 << 19;

    struct GranSlot
    {
        uintptr_t key;
        uint32_t gen;
        Granule g;
    };

    struct Shared // shared between explorer processes
    {
        volatile int lockWord;
        volatile int stop;
        volatile int active;
        volatile u64 states, edges, executions, pruned, points, maxDepth, completed, outcomes;
        volatile int violationSet;
        volatile int full;
        int violationKind;
        char violationText[2000];
        int violationLen;
        uint8_t violationChoices[65536];
        volatile long qlen;
        struct Item
        {
            int len;
            uint8_t c[3000];
        } q[4096];
    };

    struct RT
    {
        bool on; // executing a scenario under control
        int inside; // inside runtime code: allocations go to libc
        Thread t[MAX_THREADS];
        int nthreads;
        int cur;
        void * mainSp;
        Obj obj[OBJ_TABLE];
        GranSlot * gran;
        uint32_t gen;
        char * arena;
        char * stacks;
        uint8_t * saved; // snapshot of writable static data
        u64 outcome;
        int failAllocation, failThread, failFiber, failed;
        u64 waitSeq;
        // current execution
        std::vector<uint8_t> choices;
        size_t prefixLen;
        int budgetUsed;
        int bound;
        bool spurious;
        bool ended;
        int endKind; // 0 completed, 1 pruned, 2 violation
        int violation; // Report bit
        char text[2000];
        int points;
        std::vector<std::vector<uint8_t>> stack;
        bool recording; // false when replaying a fixed schedule
        bool trace;
        unsigned reports;
        u64 liveBlocks;
        uint8_t tidSeen;
        int lastCur;
        const std::function<void()> * body;
        char mainEh[32];
    };

    // All static data of the runtime lives in a section of its own, which is not restored after an execution.
#define VPRT __attribute__( ( section( "vprt" ) ) )
    alignas( 64 ) VPRT char rtStorage[sizeof( RT )] = {0};
#define R ( reinterpret_cast<RT *>( rtStorage ) )

    VPRT Shared * S = nullptr;
    VPRT u64 * visited = nullptr;
    VPRT u64 visitedMask = 0;
    VPRT u64 * outcomeSet = nullptr;
    VPRT std::vector<uint8_t> * prefix = nullptr; // choices to replay in the current execution
    VPRT size_t replayPos = 0;
    VPRT uint8_t * snapshotMem = nullptr;
    VPRT void * trash = nullptr;
    const u64 OUTCOME_MASK = ( 1 << 16 ) - 1;

    extern "C" void vp_switch( void ** save, void * load );
    asm( R"(
.text
.globl vp_switch
.type vp_switch,@function
vp_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vp_switch,.-vp_switch
)" );

    struct Inside
    {
        Inside()
        {
            ++R->inside;
        }
        ~Inside()
        {
            --R->inside;
        }
    };

    inline Thread & me()
    {
        return R->t[R->cur];
    }

    void endExecution( int kind );

    void violation( int kind, const char * fmt, const char * a = "", const char * b = "" )
    {
        if ( !( R->reports & kind ) ) {
            // not part of the property being decided: the execution ends here without verdict
            if ( kind == vp::REPORT_RACE || kind == vp::REPORT_LEAK )
                return;
            snprintf( R->text, sizeof R->text, fmt, a, b );
            endExecution( 3 );
            return;
        }
        R->violation = kind;
        snprintf( R->text, sizeof R->text, fmt, a, b );
        endExecution( 2 );
    }

    void switchTo( int next )
    {
        const int prev = R->cur;
        if ( next == prev )
            return;
        memcpy( R->t[prev].eh, abi::__cxa_get_globals(), 16 );
        R->cur = next;
        memcpy( abi::__cxa_get_globals(), R->t[next].eh, 16 );
        // inside counter is per fiber in effect: all fibers switch at the same nesting (1)
        vp_switch( &R->t[prev].sp, R->t[next].sp );
    }

    void endExecution( int kind )
    {
        R->ended = true;
        R->endKind = kind;
        memcpy( abi::__cxa_get_globals(), R->mainEh, 16 );
        vp_switch( &trash, R->mainSp );
        abort();
    }

    Obj * getObj( void * p )
    {
        const uintptr_t a = reinterpret_cast<uintptr_t>( p );
        size_t i = mix( a, 1 ) & ( OBJ_TABLE - 1 );
        for ( size_t n = 0; n < OBJ_TABLE; ++n ) {
            Obj & o = R->obj[i];
            if ( o.gen == R->gen && o.addr == a )
                return &o;
            if ( o.gen != R->gen ) {
                o.addr = a;
                o.wh = mix( a, 77 );
                o.rh = 0;
                o.owner = -1;
                o.depth = 0;
                o.readers = 0;
                o.gen = R->gen;
                o.vc.clear();
                return &o;
            }
            i = ( i + 1 ) & ( OBJ_TABLE - 1 );
        }
        fprintf( stderr, "object table full\n" );
        _exit( 2 );
    }

    Granule & getGran( uintptr_t g )
    {
        size_t i = mix( g, 2 ) & ( GRAN_TABLE - 1 );
        for ( size_t n = 0; n < GRAN_TABLE; ++n ) {
            GranSlot & s = R->gran[i];
            if ( s.gen == R->gen && s.key == g )
                return s.g;
            if ( s.gen != R->gen ) {
                s.gen = R->gen;
                s.key = g;
                s.g.n = 0;
                s.g.freed = 0;
                return s.g;
            }
            i = ( i + 1 ) & ( GRAN_TABLE - 1 );
        }
        fprintf( stderr, "shadow table full\n" );
        _exit( 2 );
    }

    bool inArena( const void * p )
    {
        return p >= R->arena && p < R->arena + ARENA_SIZE;
    }
    bool inStacks( const void * p )
    {
        return p >= R->stacks && p < R->stacks + STACK_SIZE * MAX_THREADS;
    }

    void describe( char * buf, size_t n, const void * p )
    {
        if ( inArena( p ) )
            snprintf( buf, n, "heap block of thread %d", int( ( static_cast<const char *>( p ) - R->arena ) / ARENA_PER_THREAD ) );
        else if ( inStacks( p ) )
            snprintf( buf, n, "stack of thread %d", int( ( static_cast<const char *>( p ) - R->stacks ) / STACK_SIZE ) );
        else
            snprintf( buf, n, "static data" );
    }

    // plain or atomic access to [p, p + size)
    void access( const void * p, size_t size, bool write, bool atomic )
    {
        if ( !R->on || R->inside || size == 0 )
            return;
        if ( !( R->reports & vp::REPORT_RACE ) && !inArena( p ) )
            return;
        Inside guard;
        uintptr_t a = reinterpret_cast<uintptr_t>( p );
        const uintptr_t end = a + size;
        const int tid = R->cur;
        // a thread's own stack below its current use needs no tracking unless shared: tracked all the same
        while ( a < end ) {
            const uintptr_t g = a >> 3;
            const unsigned lo = a & 7;
            const unsigned hi = ( end - ( a - lo ) ) < 8 ? unsigned( end - ( a - lo ) ) : 8u;
            const uint8_t mask = uint8_t( ( 0xFFu >> ( 8 - hi ) ) & ( 0xFFu << lo ) );
            Granule & G = getGran( g );
            if ( G.freed ) {
                char d[64];
                describe( d, sizeof d, p );
                char t[64];
                snprintf( t, sizeof t, "%s by thread %d", write ? "write" : "read", tid );
                violation( vp::REPORT_MEMORY, "%s to freed memory (%s)", t, d );
            }
            if ( R->reports & vp::REPORT_RACE ) {
                int same = -1;
                int keep = 0;
                for ( int i = 0; i < G.n; ++i ) {
                    Access & x = G.a[i];
                    if ( ( x.mask & mask ) && x.tid != tid && ( x.write || write ) && !( x.atomic && atomic ) && x.clk > me().vc.c[x.tid] ) {
                        char d[64], t[96];
                        describe( d, sizeof d, p );
                        snprintf( t, sizeof t, "%s%s by thread %d and %s%s by thread %d", atomic ? "atomic " : "", write ? "write" : "read", tid, x.atomic ? "atomic " : "",
                                  x.write ? "write" : "read", int( x.tid ) );
                        violation( vp::REPORT_RACE, "data race: %s, unordered (%s)", t, d );
                    }
                    // a record that is ordered before this write and covered by it is no longer needed
                    const bool covered = ( x.mask & ~mask ) == 0 && ( x.tid == tid || x.clk <= me().vc.c[x.tid] ) && write && !atomic;
                    if ( x.tid == tid && x.mask == mask && x.write == uint8_t( write ) && x.atomic == uint8_t( atomic ) ) {
                        x.clk = me().vc.c[tid];
                        same = keep;
                        G.a[keep++] = x;
                        continue;
                    }
                    if ( !covered )
                        G.a[keep++] = x;
                }
                G.n = uint8_t( keep );
                if ( same < 0 ) {
                    if ( G.n == SHADOW_SLOTS ) {
                        memmove( G.a, G.a + 1, sizeof( Access ) * ( SHADOW_SLOTS - 1 ) );
                        --G.n;
                    }
                    Access & x = G.a[G.n++];
                    x.clk = me().vc.c[tid];
                    x.tid = uint8_t( tid );
                    x.mask = mask;
                    x.write = write;
                    x.atomic = atomic;
                }
            }
            a = ( a - lo ) + 8;
        }
    }

    void checkObject( const void * p, const char * what )
    {
        if ( !R->on )
            return;
        if ( getGran( reinterpret_cast<uintptr_t>( p ) >> 3 ).freed ) {
            char t[64];
            snprintf( t, sizeof t, "thread %d", R->cur );
            violation( vp::REPORT_MEMORY, "%s on an object in freed memory by %s", what, t );
        }
    }

    // acquire: thread learns from object; release: object learns from thread
    void acquire( Obj * o )
    {
        me().vc.join( o->vc );
    }
    void release( Obj * o )
    {
        o->vc.join( me().vc );
        ++me().vc.c[R->cur];
    }

    void event( OpKind k, Obj * o, bool readOnly )
    {
        Thread & t = me();
        if ( o == nullptr ) {
            t.h = mix( t.h, k );
            return;
        }
        u64 h = mix( mix( mix( t.h, k ), o->addr ), o->wh );
        if ( readOnly ) {
            o->rh += h;
        }
        else {
            h = mix( h, o->rh );
            o->wh = h;
            o->rh = 0;
        }
        t.h = h;
    }

    bool enabled( int i )
    {
        Thread & t = R->t[i];
        if ( !t.used || t.finished )
            return false;
        switch ( t.op ) {
        case OP_LOCK:
            return t.obj->owner < 0 && t.obj->readers == 0;
        case OP_WRLOCK:
            return t.obj->owner < 0 && t.obj->readers == 0;
        case OP_RDLOCK:
            return t.obj->owner < 0;
        case OP_GUARD:
            return t.obj->owner < 0;
        case OP_COND_BLOCKED:
        case OP_COND_BLOCKED_TIMED:
            return t.signaled && t.reacquire->owner < 0;
        case OP_JOIN:
            return R->t[t.joinTarget].finished;
        default:
            return true;
        }
    }

    u64 signature()
    {
        u64 s = 0;
        for ( int i = 0; i < R->nthreads; ++i ) {
            Thread & t = R->t[i];
            u64 h = mix( t.h, u64( i ) + 1000 );
            h = mix( h, t.finished ? 1 : 0 );
            if ( t.yielded )
                h = mix( h, 5 );
            s += h;
        }
        if ( R->bound >= 0 )
            s = mix( s, u64( R->cur ) + 1 );
        return s;
    }

    // returns true when the state is new (or is now explored with a larger budget than before)
    bool visit( u64 sig, int remaining )
    {
        sig &= ~u64( 0xFF );
        if ( sig == 0 )
            sig = 0x100;
        u64 i = mix( sig, 3 ) & visitedMask;
        for ( u64 n = 0; n <= visitedMask; ++n ) {
            u64 v = __atomic_load_n( &visited[i], __ATOMIC_RELAXED );
            if ( v == 0 ) {
                u64 expected = 0;
                if ( __atomic_compare_exchange_n( &visited[i], &expected, sig | u64( remaining + 1 ), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) ) {
                    __atomic_fetch_add( &S->states, 1, __ATOMIC_RELAXED );
                    return true;
                }
                v = expected;
            }
            if ( ( v & ~u64( 0xFF ) ) == sig ) {
                for ( ;; ) {
                    if ( int( v & 0xFF ) >= remaining + 1 )
                        return false;
                    if ( __atomic_compare_exchange_n( &visited[i], &v, sig | u64( remaining + 1 ), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) )
                        return true;
                }
            }
            i = ( i + 1 ) & visitedMask;
        }
        S->full = 1; // reported as a capped exploration
        S->stop = 1;
        return false;
    }

    struct Option
    {
        uint8_t thread;
        uint8_t kind; // 0 run, 1 spurious wake-up, 2 timeout
        uint8_t cost;
    };

    void deadlock()
    {
        char buf[1500];
        size_t n = 0;
        for ( int i = 0; i < R->nthreads; ++i ) {
            if ( !R->t[i].finished && n < sizeof buf - 80 )
                n += size_t( snprintf( buf + n, sizeof buf - n, " [thread %d: %s]", i, opName[R->t[i].op] ) );
        }
        violation( vp::REPORT_DEADLOCK, "deadlock: no thread can run%s", buf );
    }

    // the heart: called by the current thread when it is about to perform its pending operation
    void schedulePoint()
    {
        Thread & t = me();
        if ( ++R->points > MAX_POINTS )
            violation( vp::REPORT_DEADLOCK, "no progress: more than the allowed number of steps in one execution (livelock)" );

        for ( ;; ) {
            Option opt[3 * MAX_THREADS];
            int n = 0;
            const int cur = R->cur;
            const bool curEnabled = enabled( cur );
            bool otherEnabled = false;
            for ( int i = 0; i < R->nthreads; ++i )
                if ( i != cur && enabled( i ) )
                    otherEnabled = true;
            // a thread that yields or spins lets the others go first
            const bool mustLeave = curEnabled && otherEnabled && ( t.yielded || t.spin > SPIN_LIMIT );
            if ( curEnabled && !mustLeave ) {
                opt[n].thread = uint8_t( cur );
                opt[n].kind = 0;
                opt[n++].cost = 0;
            }
            for ( int i = 0; i < R->nthreads; ++i ) {
                if ( i != cur && enabled( i ) ) {
                    opt[n].thread = uint8_t( i );
                    opt[n].kind = 0;
                    opt[n++].cost = ( curEnabled && !mustLeave ) ? 1 : 0;
                }
            }
            if ( R->spurious || n == 0 ) {
                for ( int i = 0; i < R->nthreads; ++i ) {
                    Thread & o = R->t[i];
                    if ( o.used && !o.finished && !o.signaled && o.reacquire != nullptr && o.reacquire->owner < 0 ) {
                        if ( o.op == OP_COND_BLOCKED_TIMED ) {
                            opt[n].thread = uint8_t( i );
                            opt[n].kind = 2;
                            const uint8_t c = n ? 1 : 0;
                            opt[n++].cost = c;
                        }
                        else if ( o.op == OP_COND_BLOCKED && R->spurious && n > 0 ) {
                            opt[n].thread = uint8_t( i );
                            opt[n].kind = 1;
                            opt[n++].cost = 1;
                        }
                    }
                }
            }
            if ( n == 0 ) {
                deadlock();
                return;
            }

            int choice = 0;
            if ( n > 1 ) {
                if ( replayPos < prefix->size() ) {
                    choice = ( *prefix )[replayPos++];
                    if ( choice >= n ) {
                        fprintf( stderr, "divergence while replaying a prefix: choice %d of %d at position %zu\n", choice, n, replayPos - 1 );
                        _exit( 2 );
                    }
                }
                else if ( R->recording ) {
                    const int remaining = R->bound < 0 ? 254 : R->bound - R->budgetUsed;
                    u64 sig = signature();
                    if ( !visit( sig, remaining > 253 ? 253 : remaining ) ) {
                        endExecution( 1 );
                        return;
                    }
                    for ( int alt = n - 1; alt >= 1; --alt ) {
                        if ( opt[alt].cost > remaining )
                            continue;
                        std::vector<uint8_t> p( R->choices );
                        p.push_back( uint8_t( alt ) );
                        R->stack.push_back( std::move( p ) );
                    }
                }
                R->choices.push_back( uint8_t( choice ) );
                __atomic_fetch_add( &S->edges, 1, __ATOMIC_RELAXED );
            }
            R->budgetUsed += opt[choice].cost;

            Thread & o = R->t[opt[choice].thread];
            if ( opt[choice].kind ) {
                o.signaled = true;
                if ( opt[choice].kind == 2 )
                    o.timedOut = true;
                // the wake-up is an event of its own
                o.h = mix( o.h, 900 + opt[choice].kind );
            }
            const int next = opt[choice].thread;
            if ( R->trace )
                fprintf( stderr, "  -> thread %d: %s%s\n", next, opName[o.op], opt[choice].kind ? " (spurious/timeout)" : "" );
            if ( next == cur ) {
                ++t.spin;
            }
            else {
                t.yielded = false;
                t.spin = 0;
                switchTo( next );
            }
            // now scheduled again: the pending operation of this thread can be performed
            return;
        }
    }

    void sync( OpKind k, Obj * o )
    {
        Thread & t = me();
        t.op = k;
        t.obj = o;
        schedulePoint();
    }

    void threadMain();

    extern "C" void vp_thread_entry()
    {
        threadMain();
        abort();
    }

    void prepareStack( Thread & t, int id )
    {
        t.stack = R->stacks + STACK_SIZE * size_t( id );
        uintptr_t top = reinterpret_cast<uintptr_t>( t.stack ) + STACK_SIZE - 128;
        top &= ~uintptr_t( 63 );
        void ** sp = reinterpret_cast<void **>( top );
        *--sp = nullptr; // return address of the entry: end of stack
        *--sp = reinterpret_cast<void *>( &vp_thread_entry );
        for ( int i = 0; i < 6; ++i )
            *--sp = nullptr;
        t.sp = sp;
    }

    int newThread( void * ( *fn )( void * ), void * arg )
    {
        if ( R->nthreads >= MAX_THREADS ) {
            fprintf( stderr, "too many threads in one execution\n" );
            _exit( 2 );
        }
        const int id = R->nthreads++;
        Thread & t = R->t[id];
        memset( static_cast<void *>( &t ), 0, sizeof t );
        t.used = true;
        t.fn = fn;
        t.arg = arg;
        t.op = OP_START;
        t.h = mix( u64( id ), 4242 );
        t.vc.clear();
        prepareStack( t, id );
        return id;
    }

    void threadMain()
    {
        // entered with the runtime's nesting count of 1
        R->inside = 0;
        Thread & t = me();
        t.ret = t.fn( t.arg );
        R->inside = 1;
        t.op = OP_EXIT;
        t.obj = nullptr;
        // thread exit is an event on the thread itself: joiners learn from its clock
        t.h = mix( t.h, OP_EXIT );
        t.finished = true;
        if ( R->cur == 0 ) {
            // the scenario body is over: all threads must have been joined by then
            for ( int i = 1; i < R->nthreads; ++i )
                if ( !R->t[i].finished && !R->t[i].detached )
                    violation( vp::REPORT_SEMANTIC, "a thread is still running after everything was destroyed" );
            endExecution( 0 );
        }
        schedulePoint();
        abort();
    }

    const std::function<void()> * currentBody()
    {
        return R->body;
    }

    void * bodyMain( void * )
    {
        try {
            ( *currentBody() )();
        }
        catch ( const std::exception & e ) {
            R->inside = 1;
            violation( vp::REPORT_SEMANTIC, "unexpected exception: %s", e.what() );
        }
        catch ( ... ) {
            R->inside = 1;
            violation( vp::REPORT_SEMANTIC, "unexpected exception" );
        }
        return nullptr;
    }

    void onTerminate()
    {
        R->inside = 1;
        if ( R->on )
            violation( vp::REPORT_MEMORY, "std::terminate was called" );
        abort();
    }

    void publishViolation( int kind, const char * text );

    void onSignal( int sig )
    {
        char b[100];
        snprintf( b, sizeof b, "crash: signal %d", sig );
        R->violation = vp::REPORT_MEMORY;
        publishViolation( vp::REPORT_MEMORY, b );
        _exit( 3 );
    }

    void lockShared()
    {
        while ( __atomic_exchange_n( &S->lockWord, 1, __ATOMIC_ACQUIRE ) )
            usleep( 1 );
    }
    void unlockShared()
    {
        __atomic_store_n( &S->lockWord, 0, __ATOMIC_RELEASE );
    }

    void publishViolation( int kind, const char * text )
    {
        lockShared();
        if ( !S->violationSet ) {
            S->violationSet = 1;
            S->violationKind = kind;
            snprintf( S->violationText, sizeof S->violationText, "%s", text );
            S->violationLen = int( R->choices.size() );
            for ( size_t i = 0; i < R->choices.size() && i < sizeof S->violationChoices; ++i )
                S->violationChoices[i] = R->choices[i];
            S->stop = 1;
        }
        unlockShared();
    }

    size_t dataSize()
    {
        return size_t( _edata - __data_start );
    }
    size_t bssSize()
    {
        return size_t( _end - __bss_start );
    }

    // one execution following *prefix
    void execute()
    {
        ++R->gen;
        R->nthreads = 0;
        R->cur = 0;
        R->choices.clear();
        R->budgetUsed = 0;
        R->ended = false;
        R->endKind = -1;
        R->points = 0;
        R->outcome = 0;
        R->failAllocation = R->failThread = -1;
        R->failed = 0;
        R->waitSeq = 0;
        R->liveBlocks = 0;
        R->violation = 0;
        replayPos = 0;

        const int id = newThread( bodyMain, nullptr );
        R->cur = id;
        R->t[id].vc.c[id] = 1;
        memcpy( R->mainEh, abi::__cxa_get_globals(), 16 );
        R->inside = 1;
        R->on = true;
        vp_switch( &R->mainSp, R->t[id].sp );
        R->on = false;
        R->inside = 1;
        memcpy( abi::__cxa_get_globals(), R->mainEh, 16 );
    }

    // static data of the program is restored after each execution
    void copyExceptRuntime( char * dst, const char * src, char * base, size_t size )
    {
        // [base, base + size) without [__start_vprt, __stop_vprt)
        const size_t lo = ( __start_vprt >= base && __start_vprt < base + size ) ? size_t( __start_vprt - base ) : size;
        const size_t hi = ( __stop_vprt > base && __stop_vprt <= base + size ) ? size_t( __stop_vprt - base ) : ( lo < size ? size : size );
        memcpy( dst, src, lo );
        if ( hi < size )
            memcpy( dst + hi, src + hi, size - hi );
    }
    void saveStatics()
    {
        char * m = reinterpret_cast<char *>( snapshotMem );
        copyExceptRuntime( m, __data_start, __data_start, dataSize() );
        copyExceptRuntime( m + dataSize(), __bss_start, __bss_start, bssSize() );
    }
    void restoreStatics()
    {
        const char * m = reinterpret_cast<const char *>( snapshotMem );
        copyExceptRuntime( __data_start, m, __data_start, dataSize() );
        copyExceptRuntime( __bss_start, m + dataSize(), __bss_start, bssSize() );
    }

    void worker()
    {
        int idle = 0;
        bool counted = true;
        std::vector<uint8_t> item;
        while ( !S->stop ) {
            if ( R->stack.empty() ) {
                lockShared();
                if ( S->qlen > 0 ) {
                    const long k = --S->qlen;
                    item.assign( S->q[k].c, S->q[k].c + S->q[k].len );
                    if ( !counted ) {
                        ++S->active;
                        counted = true;
                    }
                    unlockShared();
                }
                else {
                    if ( counted ) {
                        --S->active;
                        counted = false;
                    }
                    const bool over = S->active == 0;
                    unlockShared();
                    if ( over )
                        return;
                    usleep( 50 );
                    ++idle;
                    continue;
                }
            }
            else {
                // share work: give away the shallowest items
                if ( S->qlen < 16 && R->stack.size() > 1 ) {
                    lockShared();
                    size_t give = R->stack.size() / 2;
                    if ( give > 32 )
                        give = 32;
                    size_t g = 0;
                    while ( g < give && S->qlen < 4096 && R->stack[g].size() <= sizeof( S->q[0].c ) ) {
                        Shared::Item & it = S->q[S->qlen];
                        it.len = int( R->stack[g].size() );
                        memcpy( it.c, R->stack[g].data(), R->stack[g].size() );
                        ++S->qlen;
                        ++g;
                    }
                    unlockShared();
                    R->stack.erase( R->stack.begin(), R->stack.begin() + long( g ) );
                    if ( R->stack.empty() )
                        continue;
                }
                item.swap( R->stack.back() );
                R->stack.pop_back();
            }

            prefix = &item;
            execute();
            __atomic_fetch_add( &S->executions, 1, __ATOMIC_RELAXED );
            __atomic_fetch_add( &S->points, u64( R->points ), __ATOMIC_RELAXED );
            if ( R->choices.size() > S->maxDepth )
                S->maxDepth = R->choices.size();
            if ( R->endKind == 1 ) {
                __atomic_fetch_add( &S->pruned, 1, __ATOMIC_RELAXED );
            }
            else if ( R->endKind == 0 ) {
                __atomic_fetch_add( &S->completed, 1, __ATOMIC_RELAXED );
                u64 o = mix( R->outcome, 9 ) | 1;
                u64 i = o & OUTCOME_MASK;
                for ( int n = 0; n < 64; ++n ) {
                    u64 e = 0;
                    if ( __atomic_compare_exchange_n( &outcomeSet[i], &e, o, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) ) {
                        __atomic_fetch_add( &S->outcomes, 1, __ATOMIC_RELAXED );
                        break;
                    }
                    if ( e == o )
                        break;
                    i = ( i + 1 ) & OUTCOME_MASK;
                }
            }
            else if ( R->endKind == 2 ) {
                publishViolation( R->violation, R->text );
            }
            restoreStatics();
        }
    }

    void initRuntime()
    {
        new ( R ) RT();
        R->gran = static_cast<GranSlot *>( mmap( nullptr, sizeof( GranSlot ) * GRAN_TABLE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
        // fixed addresses, so that every process and every replay sees the same object addresses
        R->arena = static_cast<char *>(
            mmap( reinterpret_cast<void *>( 0x200000000000ULL ), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ) );
        R->stacks = static_cast<char *>( mmap( reinterpret_cast<void *>( 0x210000000000ULL ), STACK_SIZE * MAX_THREADS, PROT_READ | PROT_WRITE,
                                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ) );
        if ( R->gran == MAP_FAILED || R->arena == MAP_FAILED || R->stacks == MAP_FAILED ) {
            perror( "mmap" );
            _exit( 2 );
        }
        R->inside = 1;
    }
}

// ---------------------------------------------------------------------------------------------------- scenario interface
namespace vp
{
    bool active()
    {
        return R->on;
    }
    void check( bool condition, const char * what )
    {
        if ( !R->on || condition )
            return;
        Inside g;
        violation( REPORT_SEMANTIC, "%s", what );
    }
    void point()
    {
        if ( !R->on )
            return;
        Inside g;
        sync( OP_POINT, nullptr );
        event( OP_POINT, nullptr, false );
    }
    void observe( uint64_t value )
    {
        R->outcome = mix( R->outcome, value );
    }
    void failAllocation( int number, int thread )
    {
        R->failAllocation = number;
        R->failFiber = thread < 0 ? R->cur : thread;
        R->failed = 0;
    }
    void failThread( int number )
    {
        R->failThread = number;
        R->failFiber = R->cur;
        R->failed = 0;
    }
    bool failed()
    {
        R->failAllocation = R->failThread = -1;
        return R->failed != 0;
    }
}

// --------------------------------------------------------------------------------------------------------------- memory
static const size_t HEADER = 16;

static bool failNow( int & number )
{
    if ( number < 0 || R->failFiber != R->cur || number-- > 0 )
        return false;
    R->failed = 1;
    return true;
}

static void * arenaAlloc( size_t size, size_t align )
{
    Thread & t = me();
    if ( failNow( R->failAllocation ) ) {
        errno = ENOMEM;
        return nullptr;
    }
    const size_t base = size_t( R->cur ) * ARENA_PER_THREAD;
    if ( align < 16 )
        align = 16;
    size_t pos = ( t.bump + HEADER + align - 1 ) / align * align;
    const size_t rounded = ( size + 7 ) & ~size_t( 7 );
    if ( pos + rounded + 16 > ARENA_PER_THREAD ) {
        errno = ENOMEM;
        return nullptr;
    }
    t.bump = pos + rounded + 16;
    char * p = R->arena + base + pos;
    reinterpret_cast<size_t *>( p )[-1] = size;
    reinterpret_cast<size_t *>( p )[-2] = 0x11fe11fe;
    memset( p, 0xCD, size );
    ++R->liveBlocks;
    return p;
}

static void arenaFree( void * p )
{
    size_t * h = static_cast<size_t *>( p );
    if ( !R->on )
        return;
    ++R->inside;
    if ( h[-2] != 0x11fe11fe )
        violation( vp::REPORT_MEMORY, h[-2] == 0xdeaddead ? "double free" : "free of an invalid pointer" );
    const size_t size = h[-1];
    h[-2] = 0xdeaddead;
    --R->inside;
    access( p, size, true, false ); // freeing conflicts with every unordered access
    ++R->inside;
    for ( size_t i = 0; i < OBJ_TABLE; ++i ) {
        Obj & o = R->obj[i];
        if ( o.gen == R->gen && o.addr >= reinterpret_cast<uintptr_t>( p ) && o.addr < reinterpret_cast<uintptr_t>( p ) + size && ( o.owner >= 0 || o.readers ) )
            violation( vp::REPORT_MEMORY, "destruction of a locked mutex" );
    }
    for ( int i = 0; i < R->nthreads; ++i ) {
        Thread & t = R->t[i];
        if ( t.used && !t.finished && ( t.op == OP_COND_BLOCKED || t.op == OP_COND_BLOCKED_TIMED || t.op == OP_LOCK ) && t.obj != nullptr
             && t.obj->addr >= reinterpret_cast<uintptr_t>( p ) && t.obj->addr < reinterpret_cast<uintptr_t>( p ) + size && i != R->cur )
            violation( vp::REPORT_MEMORY, "destruction of a mutex or condition variable somebody waits for" );
    }
    for ( size_t a = 0; a < size; a += 8 )
        getGran( ( reinterpret_cast<uintptr_t>( p ) + a ) >> 3 ).freed = 1;
    memset( p, 0xDD, size );
    --R->liveBlocks;
    --R->inside;
}

static inline bool useArena()
{
    return R->on && R->inside == 0;
}

extern "C" {
void * malloc( size_t n )
{
    return useArena() ? arenaAlloc( n, 16 ) : __libc_malloc( n );
}
void free( void * p )
{
    if ( p == nullptr )
        return;
    if ( R->arena != nullptr && inArena( p ) ) {
        arenaFree( p );
        return;
    }
    __libc_free( p );
}
void * calloc( size_t a, size_t b )
{
    if ( !useArena() )
        return __libc_calloc( a, b );
    void * p = arenaAlloc( a * b, 16 );
    if ( p )
        memset( p, 0, a * b );
    return p;
}
void * realloc( void * p, size_t n )
{
    if ( p != nullptr && inArena( p ) ) {
        const size_t old = static_cast<size_t *>( p )[-1];
        void * q = malloc( n );
        if ( q )
            memcpy( q, p, old < n ? old : n );
        free( p );
        return q;
    }
    if ( !useArena() )
        return __libc_realloc( p, n );
    if ( p == nullptr )
        return malloc( n );
    return __libc_realloc( p, n );
}
void * memalign( size_t a, size_t n )
{
    return useArena() ? arenaAlloc( n, a ) : __libc_memalign( a, n );
}
void * aligned_alloc( size_t a, size_t n )
{
    return memalign( a, n );
}
int posix_memalign( void ** out, size_t a, size_t n )
{
    void * p = memalign( a, n );
    if ( !p )
        return ENOMEM;
    *out = p;
    return 0;
}
}

// -------------------------------------------------------------------------------------------------------------- pthread
static int mutexLock( void * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( m, "lock" );
    Obj * o = getObj( m );
    if ( o->owner == R->cur ) {
        // std::recursive_mutex is not distinguished: relocking is a self-deadlock for a plain mutex
        const pthread_mutex_t * pm = static_cast<pthread_mutex_t *>( m );
        if ( ( pm->__data.__kind & 127 ) == PTHREAD_MUTEX_RECURSIVE_NP ) {
            ++o->depth;
            return 0;
        }
    }
    sync( OP_LOCK, o );
    checkObject( m, "lock" );
    o->owner = R->cur;
    o->depth = 1;
    acquire( o );
    event( OP_LOCK, o, false );
    return 0;
}

static void mutexUnlockRaw( Obj * o )
{
    o->owner = -1;
    o->depth = 0;
    event( OP_UNLOCK, o, false );
    release( o );
}

static Obj * condBegin( void * c, void * m )
{
    checkObject( c, "condition wait" );
    sync( OP_COND_WAIT, getObj( c ) );
    checkObject( c, "condition wait" );
    Obj * oc = getObj( c );
    Obj * om = getObj( m );
    if ( om->owner != R->cur )
        violation( vp::REPORT_SEMANTIC, "condition wait without holding the mutex" );
    event( OP_COND_WAIT, oc, false );
    mutexUnlockRaw( om );
    Thread & t = me();
    t.signaled = false;
    t.timedOut = false;
    t.reacquire = om;
    t.waitSeq = ++R->waitSeq;
    return oc;
}

static int condEnd( OpKind k, Obj * oc )
{
    Thread & t = me();
    sync( k, oc );
    Obj * om = t.reacquire;
    t.reacquire = nullptr;
    om->owner = R->cur;
    om->depth = 1;
    acquire( om );
    event( OP_LOCK, om, false );
    return t.timedOut ? ETIMEDOUT : 0;
}

extern "C" {
int pthread_mutex_lock( pthread_mutex_t * m )
{
    return mutexLock( m );
}
int pthread_mutex_trylock( pthread_mutex_t * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( m, "trylock" );
    Obj * o = getObj( m );
    sync( OP_TRYLOCK, o );
    checkObject( m, "trylock" );
    if ( o->owner >= 0 || o->readers ) {
        event( OP_TRYLOCK, o, true );
        return EBUSY;
    }
    o->owner = R->cur;
    o->depth = 1;
    acquire( o );
    event( OP_LOCK, o, false );
    return 0;
}
int pthread_mutex_timedlock( pthread_mutex_t * m, const struct timespec * )
{
    return mutexLock( m );
}
int pthread_mutex_clocklock( pthread_mutex_t * m, clockid_t, const struct timespec * )
{
    return mutexLock( m );
}
int pthread_mutex_unlock( pthread_mutex_t * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( m, "unlock" );
    Obj * o = getObj( m );
    if ( o->owner != R->cur )
        violation( vp::REPORT_SEMANTIC, "unlock of a mutex that is not held" );
    if ( o->depth > 1 ) {
        --o->depth;
        return 0;
    }
    mutexUnlockRaw( o );
    return 0;
}
int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * attr )
{
    memset( m, 0, sizeof *m );
    if ( attr != nullptr )
        m->__data.__kind = *reinterpret_cast<const int *>( attr ) & 127;
    return 0;
}
int pthread_mutex_destroy( pthread_mutex_t * m )
{
    if ( R->on ) {
        Inside g;
        if ( getObj( m )->owner >= 0 )
            violation( vp::REPORT_MEMORY, "destruction of a locked mutex" );
    }
    return 0;
}

int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    Obj * oc = condBegin( c, m );
    return condEnd( OP_COND_BLOCKED, oc );
}
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * )
{
    if ( !R->on )
        return 0;
    Inside g;
    Obj * oc = condBegin( c, m );
    return condEnd( OP_COND_BLOCKED_TIMED, oc );
}
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec * ts )
{
    return pthread_cond_timedwait( c, m, ts );
}
static int condSignal( void * c, bool all )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( c, "notify" );
    Obj * o = getObj( c );
    sync( all ? OP_BROADCAST : OP_SIGNAL, o );
    checkObject( c, "notify" );
    event( all ? OP_BROADCAST : OP_SIGNAL, o, false );
    if ( all ) {
        for ( int i = 0; i < R->nthreads; ++i ) {
            Thread & t = R->t[i];
            if ( t.used && !t.finished && ( t.op == OP_COND_BLOCKED || t.op == OP_COND_BLOCKED_TIMED ) && t.obj == o && !t.signaled ) {
                t.signaled = true;
                t.h = mix( t.h, o->wh );
            }
        }
    }
    else {
        // any waiter may be the one that is woken: which one is a choice
        int waiters[MAX_THREADS];
        int n = 0;
        for ( int i = 0; i < R->nthreads; ++i ) {
            Thread & t = R->t[i];
            if ( t.used && !t.finished && ( t.op == OP_COND_BLOCKED || t.op == OP_COND_BLOCKED_TIMED ) && t.obj == o && !t.signaled )
                waiters[n++] = i;
        }
        if ( n > 0 ) {
            int k = 0;
            if ( n > 1 ) {
                // oldest waiter first
                for ( int i = 0; i < n; ++i )
                    for ( int j = i + 1; j < n; ++j )
                        if ( R->t[waiters[j]].waitSeq < R->t[waiters[i]].waitSeq )
                            std::swap( waiters[i], waiters[j] );
                if ( replayPos < prefix->size() ) {
                    k = ( *prefix )[replayPos++];
                    if ( k >= n ) {
                        fprintf( stderr, "divergence while replaying a prefix (signal)\n" );
                        _exit( 2 );
                    }
                }
                else if ( R->recording ) {
                    for ( int alt = n - 1; alt >= 1; --alt ) {
                        std::vector<uint8_t> p( R->choices );
                        p.push_back( uint8_t( alt ) );
                        R->stack.push_back( std::move( p ) );
                    }
                }
                R->choices.push_back( uint8_t( k ) );
            }
            Thread & t = R->t[waiters[k]];
            t.signaled = true;
            t.h = mix( t.h, o->wh );
        }
    }
    return 0;
}
int pthread_cond_signal( pthread_cond_t * c )
{
    return condSignal( c, false );
}
int pthread_cond_broadcast( pthread_cond_t * c )
{
    return condSignal( c, true );
}
int pthread_cond_init( pthread_cond_t * c, const pthread_condattr_t * )
{
    memset( c, 0, sizeof *c );
    return 0;
}
int pthread_cond_destroy( pthread_cond_t * c )
{
    if ( R->on ) {
        Inside g;
        Obj * o = getObj( c );
        for ( int i = 0; i < R->nthreads; ++i ) {
            Thread & t = R->t[i];
            if ( t.used && !t.finished && i != R->cur && ( t.op == OP_COND_BLOCKED || t.op == OP_COND_BLOCKED_TIMED ) && t.obj == o && !t.signaled )
                violation( vp::REPORT_MEMORY, "destruction of a condition variable somebody waits for" );
        }
    }
    return 0;
}

int pthread_rwlock_rdlock( pthread_rwlock_t * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( m, "lock" );
    Obj * o = getObj( m );
    sync( OP_RDLOCK, o );
    ++o->readers;
    acquire( o );
    event( OP_RDLOCK, o, false );
    return 0;
}
int pthread_rwlock_wrlock( pthread_rwlock_t * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( m, "lock" );
    Obj * o = getObj( m );
    sync( OP_WRLOCK, o );
    o->owner = R->cur;
    acquire( o );
    event( OP_WRLOCK, o, false );
    return 0;
}
int pthread_rwlock_unlock( pthread_rwlock_t * m )
{
    if ( !R->on )
        return 0;
    Inside g;
    checkObject( m, "unlock" );
    Obj * o = getObj( m );
    if ( o->readers > 0 )
        --o->readers;
    else
        o->owner = -1;
    event( OP_UNLOCK, o, false );
    release( o );
    return 0;
}

int pthread_create( pthread_t * out, const pthread_attr_t *, void * ( *fn )( void * ), void * arg )
{
    if ( !R->on ) {
        fprintf( stderr, "thread created outside of an execution\n" );
        abort();
    }
    Inside g;
    sync( OP_CREATE, nullptr );
    if ( failNow( R->failThread ) ) {
        event( OP_CREATE, nullptr, false );
        return EAGAIN;
    }
    const int id = newThread( fn, arg );
    Thread & t = R->t[id];
    t.h = mix( t.h, me().h );
    t.vc = me().vc;
    t.vc.c[id] = 1;
    ++me().vc.c[R->cur];
    event( OP_CREATE, nullptr, false );
    *out = pthread_t( id + 1 );
    return 0;
}
int pthread_join( pthread_t th, void ** ret )
{
    if ( !R->on )
        return 0;
    Inside g;
    const int id = int( th ) - 1;
    Thread & t = me();
    t.joinTarget = id;
    if ( id == R->cur )
        return EDEADLK;
    sync( OP_JOIN, nullptr );
    t.vc.join( R->t[id].vc );
    t.h = mix( mix( t.h, OP_JOIN ), R->t[id].h );
    R->t[id].joined = true;
    if ( ret )
        *ret = R->t[id].ret;
    return 0;
}
int pthread_detach( pthread_t th )
{
    if ( R->on )
        R->t[int( th ) - 1].detached = true;
    return 0;
}
pthread_t pthread_self( void )
{
    return R->on ? pthread_t( R->cur + 1 ) : pthread_t( 1 );
}
int sched_yield( void )
{
    if ( !R->on )
        return 0;
    Inside g;
    me().yielded = true;
    sync( OP_YIELD, nullptr );
    event( OP_YIELD, nullptr, false );
    me().yielded = false;
    return 0;
}
int clock_nanosleep( clockid_t, int, const struct timespec *, struct timespec * )
{
    return sched_yield();
}
int nanosleep( const struct timespec *, struct timespec * )
{
    return sched_yield();
}

int __cxa_atexit( void ( *f )( void * ), void * arg, void * dso )
{
    // static destructors registered by an execution never run: the program's static data is rolled back
    if ( R->on )
        return 0;
    typedef int ( *Fn )( void ( * )( void * ), void *, void * );
    VPRT static Fn next = nullptr;
    if ( next == nullptr )
        next = reinterpret_cast<Fn>( dlsym( RTLD_NEXT, "__cxa_atexit" ) );
    return next ? next( f, arg, dso ) : 0;
}

int __cxa_guard_acquire( long long int * guard )
{
    char * b = reinterpret_cast<char *>( guard );
    if ( *b )
        return 0;
    if ( !R->on )
        return 1;
    Inside g;
    Obj * o = getObj( guard );
    sync( OP_GUARD, o );
    acquire( o );
    if ( *b ) {
        event( OP_GUARD, o, true );
        return 0;
    }
    o->owner = R->cur;
    event( OP_GUARD, o, false );
    return 1;
}
void __cxa_guard_release( long long int * guard )
{
    *reinterpret_cast<char *>( guard ) = 1;
    if ( R->on ) {
        Inside g;
        mutexUnlockRaw( getObj( guard ) );
    }
}
void __cxa_guard_abort( long long int * guard )
{
    if ( R->on ) {
        Inside g;
        mutexUnlockRaw( getObj( guard ) );
    }
}
}

// ------------------------------------------------------------------------------------------------- compiler instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
void __tsan_vptr_update( void ** p, void * )
{
    access( p, 8, true, false );
}
void __tsan_vptr_read( void ** p )
{
    access( p, 8, false, false );
}
#define PLAIN( N )                                                                                                                                                       \
    void __tsan_read##N( void * p ) { access( p, N, false, false ); }                                                                                                    \
    void __tsan_write##N( void * p ) { access( p, N, true, false ); }                                                                                                    \
    void __tsan_volatile_read##N( void * p ) { access( p, N, false, false ); }                                                                                           \
    void __tsan_volatile_write##N( void * p ) { access( p, N, true, false ); }                                                                                           \
    void __tsan_read##N##_pc( void * p, void * ) { access( p, N, false, false ); }                                                                                       \
    void __tsan_write##N##_pc( void * p, void * ) { access( p, N, true, false ); }                                                                                       \
    void __tsan_unaligned_read##N( void * p ) { access( p, N, false, false ); }                                                                                          \
    void __tsan_unaligned_write##N( void * p ) { access( p, N, true, false ); }
PLAIN( 1 )
PLAIN( 2 )
PLAIN( 4 )
PLAIN( 8 )
PLAIN( 16 )
void __tsan_read_range( void * p, unsigned long n )
{
    access( p, n, false, false );
}
void __tsan_write_range( void * p, unsigned long n )
{
    access( p, n, true, false );
}

void * __real_memcpy( void *, const void *, size_t );
void * __real_memmove( void *, const void *, size_t );
void * __real_memset( void *, int, size_t );
void * __wrap_memcpy( void * d, const void * s, size_t n )
{
    access( s, n, false, false );
    access( d, n, true, false );
    return __real_memcpy( d, s, n );
}
void * __wrap_memmove( void * d, const void * s, size_t n )
{
    access( s, n, false, false );
    access( d, n, true, false );
    return __real_memmove( d, s, n );
}
void * __wrap_memset( void * d, int c, size_t n )
{
    access( d, n, true, false );
    return __real_memset( d, c, n );
}
}

// sequentially consistent interleaving semantics for atomics; memory order decides the happens-before edges
enum
{
    MO_RELAXED,
    MO_CONSUME,
    MO_ACQUIRE,
    MO_RELEASE,
    MO_ACQ_REL,
    MO_SEQ
};

static inline bool acq( int mo )
{
    return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ;
}
static inline bool rel( int mo )
{
    return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ;
}

static Obj * atomicBegin( OpKind k, void * p, size_t n )
{
    Obj * o = getObj( p );
    sync( k, o );
    --R->inside;
    access( p, n, k != OP_LOAD, true );
    ++R->inside;
    return o;
}
static void atomicEnd( OpKind k, Obj * o, int mo )
{
    if ( k != OP_STORE && acq( mo ) )
        acquire( o );
    if ( k != OP_LOAD && rel( mo ) ) {
        if ( k == OP_STORE )
            o->vc.clear(); // a plain store starts a new release sequence
        release( o );
    }
    else if ( k == OP_STORE )
        o->vc.clear();
    event( k, o, k == OP_LOAD );
}

#define ATOMIC( BITS, T )                                                                                                                                                \
    T __tsan_atomic##BITS##_load( const volatile T * a, int mo )                                                                                                         \
    {                                                                                                                                                                    \
        if ( !R->on || R->inside )                                                                                                                                       \
            return *a;                                                                                                                                                   \
        Inside g;                                                                                                                                                        \
        Obj * o = atomicBegin( OP_LOAD, const_cast<T *>( a ), sizeof( T ) );                                                                                             \
        T v = *a;                                                                                                                                                        \
        atomicEnd( OP_LOAD, o, mo );                                                                                                                                     \
        return v;                                                                                                                                                        \
    }                                                                                                                                                                    \
    void __tsan_atomic##BITS##_store( volatile T * a, T v, int mo )                                                                                                      \
    {                                                                                                                                                                    \
        if ( !R->on || R->inside ) {                                                                                                                                     \
            *a = v;                                                                                                                                                      \
            return;                                                                                                                                                      \
        }                                                                                                                                                                \
        Inside g;                                                                                                                                                        \
        Obj * o = atomicBegin( OP_STORE, const_cast<T *>( a ), sizeof( T ) );                                                                                            \
        *a = v;                                                                                                                                                          \
        atomicEnd( OP_STORE, o, mo );                                                                                                                                    \
    }                                                                                                                                                                    \
    static T rmw##BITS( volatile T * a, T v, int mo, int which )                                                                                                         \
    {                                                                                                                                                                    \
        const bool ctl = R->on && !R->inside;                                                                                                                            \
        Obj * o = nullptr;                                                                                                                                               \
        if ( ctl ) {                                                                                                                                                     \
            ++R->inside;                                                                                                                                                 \
            o = atomicBegin( OP_RMW, const_cast<T *>( a ), sizeof( T ) );                                                                                                \
        }                                                                                                                                                                \
        T old = *a;                                                                                                                                                      \
        switch ( which ) {                                                                                                                                               \
        case 0: *a = v; break;                                                                                                                                           \
        case 1: *a = T( old + v ); break;                                                                                                                                \
        case 2: *a = T( old - v ); break;                                                                                                                                \
        case 3: *a = T( old & v ); break;                                                                                                                                \
        case 4: *a = T( old | v ); break;                                                                                                                                \
        case 5: *a = T( old ^ v ); break;                                                                                                                                \
        case 6: *a = T( ~( old & v ) ); break;                                                                                                                           \
        }                                                                                                                                                                \
        if ( ctl ) {                                                                                                                                                     \
            atomicEnd( OP_RMW, o, mo );                                                                                                                                  \
            --R->inside;                                                                                                                                                 \
        }                                                                                                                                                                \
        return old;                                                                                                                                                      \
    }                                                                                                                                                                    \
    T __tsan_atomic##BITS##_exchange( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 0 ); }                                                                 \
    T __tsan_atomic##BITS##_fetch_add( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 1 ); }                                                                \
    T __tsan_atomic##BITS##_fetch_sub( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 2 ); }                                                                \
    T __tsan_atomic##BITS##_fetch_and( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 3 ); }                                                                \
    T __tsan_atomic##BITS##_fetch_or( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 4 ); }                                                                 \
    T __tsan_atomic##BITS##_fetch_xor( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 5 ); }                                                                \
    T __tsan_atomic##BITS##_fetch_nand( volatile T * a, T v, int mo ) { return rmw##BITS( a, v, mo, 6 ); }                                                               \
    int __tsan_atomic##BITS##_compare_exchange_strong( volatile T * a, T * c, T v, int mo, int fmo )                                                                     \
    {                                                                                                                                                                    \
        if ( !R->on || R->inside ) {                                                                                                                                     \
            if ( *a == *c ) {                                                                                                                                            \
                *a = v;                                                                                                                                                  \
                return 1;                                                                                                                                                \
            }                                                                                                                                                            \
            *c = *a;                                                                                                                                                     \
            return 0;                                                                                                                                                    \
        }                                                                                                                                                                \
        Inside g;                                                                                                                                                        \
        Obj * o = atomicBegin( OP_RMW, const_cast<T *>( a ), sizeof( T ) );                                                                                              \
        if ( *a == *c ) {                                                                                                                                                \
            *a = v;                                                                                                                                                      \
            atomicEnd( OP_RMW, o, mo );                                                                                                                                  \
            return 1;                                                                                                                                                    \
        }                                                                                                                                                                \
        *c = *a;                                                                                                                                                         \
        atomicEnd( OP_LOAD, o, fmo );                                                                                                                                    \
        return 0;                                                                                                                                                        \
    }                                                                                                                                                                    \
    int __tsan_atomic##BITS##_compare_exchange_weak( volatile T * a, T * c, T v, int mo, int fmo )                                                                       \
    {                                                                                                                                                                    \
        return __tsan_atomic##BITS##_compare_exchange_strong( a, c, v, mo, fmo );                                                                                        \
    }                                                                                                                                                                    \
    T __tsan_atomic##BITS##_compare_exchange_val( volatile T * a, T c, T v, int mo, int fmo )                                                                            \
    {                                                                                                                                                                    \
        __tsan_atomic##BITS##_compare_exchange_strong( a, &c, v, mo, fmo );                                                                                              \
        return c;                                                                                                                                                        \
    }

extern "C" {
ATOMIC( 8, uint8_t )
ATOMIC( 16, uint16_t )
ATOMIC( 32, uint32_t )
ATOMIC( 64, uint64_t )
void __tsan_atomic_thread_fence( int )
{
    if ( !R->on || R->inside )
        return;
    Inside g;
    sync( OP_FENCE, nullptr );
    event( OP_FENCE, nullptr, false );
}
void __tsan_atomic_signal_fence( int ) {}
}

// ------------------------------------------------------------------------------------------------------------- explorer
namespace vp
{
    static double now()
    {
        struct timespec ts;
        clock_gettime( CLOCK_MONOTONIC, &ts );
        return double( ts.tv_sec ) + double( ts.tv_nsec ) * 1e-9;
    }

    struct Result
    {
        u64 states, edges, executions, pruned, completed, points, outcomes;
        u64 depth;
        bool capped;
        bool violated;
        int kind;
        std::string text;
        std::vector<uint8_t> choices;
        double seconds;
    };

    static Result explore( const Scenario & sc, int jobs, double limit, unsigned reports )
    {
        memset( static_cast<void *>( S ), 0, offsetof( Shared, q ) );
        if ( madvise( visited, ( visitedMask + 1 ) * 8, MADV_REMOVE ) != 0 )
            memset( visited, 0, ( visitedMask + 1 ) * 8 );
        memset( outcomeSet, 0, ( OUTCOME_MASK + 1 ) * 8 );
        R->body = &sc.body;
        R->bound = sc.bound;
        R->spurious = sc.spurious;
        R->reports = reports;
        R->recording = true;
        R->stack.clear();
        const double start = now();
        S->q[0].len = 0;
        S->qlen = 1;
        S->active = jobs;
        fflush( stdout );
        fflush( stderr );
        std::vector<pid_t> pids;
        for ( int i = 0; i < jobs; ++i ) {
            const pid_t pid = fork();
            if ( pid == 0 ) {
                worker();
                _exit( 0 );
            }
            pids.push_back( pid );
        }
        bool capped = false;
        bool broken = false;
        size_t left = pids.size();
        double lastProgress = now();
        u64 lastExec = 0;
        while ( left > 0 ) {
            int status = 0;
            const pid_t p = waitpid( -1, &status, WNOHANG );
            if ( p > 0 ) {
                --left;
                if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 )
                    continue;
                if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 3 )
                    continue; // crash of the code under test, already published
                broken = true;
                S->stop = 1;
                continue;
            }
            usleep( 500 );
            if ( S->executions != lastExec ) {
                lastExec = S->executions;
                lastProgress = now();
            }
            if ( limit > 0 && now() - start > limit && !S->stop ) {
                capped = true;
                S->stop = 1;
            }
            if ( now() - lastProgress > 60 ) {
                broken = true;
                for ( pid_t q : pids )
                    kill( q, SIGKILL );
            }
        }
        if ( broken && !S->violationSet ) {
            printf( "ERROR scenario %s: an explorer process failed\n", sc.name.c_str() );
            exit( 2 );
        }
        Result r;
        r.states = S->states;
        r.edges = S->edges;
        r.executions = S->executions;
        r.pruned = S->pruned;
        r.completed = S->completed;
        r.points = S->points;
        r.outcomes = S->outcomes;
        r.depth = S->maxDepth;
        r.capped = capped || S->full;
        r.violated = S->violationSet != 0;
        r.kind = S->violationKind;
        r.text = S->violationText;
        r.choices.assign( S->violationChoices, S->violationChoices + S->violationLen );
        r.seconds = now() - start;
        return r;
    }

    // replays one schedule in a child; returns the violation text or ""
    static std::string replay( const Scenario & sc, const std::vector<uint8_t> & choices, unsigned reports, bool trace )
    {
        memset( static_cast<void *>( S ), 0, offsetof( Shared, q ) );
        R->body = &sc.body;
        R->bound = sc.bound;
        R->spurious = sc.spurious;
        R->reports = reports;
        R->recording = false;
        R->trace = trace;
        fflush( stdout );
        const pid_t pid = fork();
        if ( pid == 0 ) {
            std::vector<uint8_t> p( choices );
            prefix = &p;
            execute();
            if ( R->endKind == 2 )
                publishViolation( R->violation, R->text );
            _exit( 0 );
        }
        int status = 0;
        waitpid( pid, &status, 0 );
        R->trace = false;
        return S->violationSet ? S->violationText : "";
    }

    int explore_main( int argc, char ** argv, const std::vector<Scenario> & scenarios, unsigned defaultReports )
    {
        initRuntime();
        std::string out, only, replayFile, resultFile = "result.txt";
        bool quick = true;
        bool trace = false;
        int jobs = 8;
        double limit = 0;
        unsigned reports = defaultReports;
        for ( int i = 1; i < argc; ++i ) {
            std::string a = argv[i];
            if ( a == "--thorough" )
                quick = false;
            else if ( a == "--only" )
                only = argv[++i];
            else if ( a == "--jobs" )
                jobs = atoi( argv[++i] );
            else if ( a == "--limit" )
                limit = atof( argv[++i] );
            else if ( a == "--out" )
                out = argv[++i];
            else if ( a == "--replay" )
                replayFile = argv[++i];
            else if ( a == "--reports" )
                reports = unsigned( atoi( argv[++i] ) );
            else if ( a == "--trace" )
                trace = true;
        }

        const size_t bits = quick ? 25 : 27;
        visitedMask = ( u64( 1 ) << bits ) - 1;
        visited = static_cast<u64 *>( mmap( nullptr, ( visitedMask + 1 ) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
        outcomeSet = static_cast<u64 *>( mmap( nullptr, ( OUTCOME_MASK + 1 ) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
        S = static_cast<Shared *>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );

        stack_t ss;
        memset( &ss, 0, sizeof ss );
        ss.ss_sp = mmap( nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
        ss.ss_size = 65536;
        sigaltstack( &ss, nullptr );
        struct sigaction sa;
        memset( &sa, 0, sizeof sa );
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_ONSTACK;
        sigaction( SIGSEGV, &sa, nullptr );
        sigaction( SIGBUS, &sa, nullptr );
        sigaction( SIGILL, &sa, nullptr );
        sigaction( SIGFPE, &sa, nullptr );
        sigaction( SIGABRT, &sa, nullptr );
        std::set_terminate( onTerminate );

        snapshotMem = static_cast<uint8_t *>( mmap( nullptr, dataSize() + bssSize() + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
        saveStatics();

        if ( !replayFile.empty() ) {
            FILE * f = fopen( replayFile.c_str(), "r" );
            char name[300];
            unsigned rep = 0;
            if ( !f || fscanf( f, "scenario=%299s reports=%u choices=", name, &rep ) != 2 ) {
                printf( "ERROR cannot read replay file\n" );
                return 2;
            }
            std::vector<uint8_t> c;
            int v;
            while ( fscanf( f, "%d", &v ) == 1 )
                c.push_back( uint8_t( v ) );
            fclose( f );
            for ( const Scenario & s : scenarios ) {
                if ( s.name == name ) {
                    const std::string t = replay( s, c, rep, true );
                    printf( "replay of %s: %s\n", name, t.empty() ? "no violation" : t.c_str() );
                    return t.empty() ? 0 : 1;
                }
            }
            printf( "ERROR unknown scenario %s\n", name );
            return 2;
        }

        int rc = 0;
        const double start = now();
        for ( const Scenario & s : scenarios ) {
            if ( quick && !s.quick )
                continue;
            if ( !only.empty() && s.name.find( only ) == std::string::npos )
                continue;
            double l = limit;
            if ( limit > 0 ) {
                l = limit - ( now() - start );
                if ( l < 1 )
                    l = 1;
            }
            Result r = explore( s, jobs, l, reports );
            printf( "SCENARIO %s bound=%d states=%llu transitions=%llu executions=%llu completed=%llu pruned=%llu steps=%llu depth=%llu outcomes=%llu capped=%d seconds=%.2f\n",
                    s.name.c_str(), s.bound, (unsigned long long)r.states, (unsigned long long)r.edges, (unsigned long long)r.executions, (unsigned long long)r.completed,
                    (unsigned long long)r.pruned, (unsigned long long)r.points, (unsigned long long)r.depth, (unsigned long long)r.outcomes, r.capped ? 1 : 0, r.seconds );
            fflush( stdout );
            if ( r.violated ) {
                // replay twice before believing it
                const std::string a = replay( s, r.choices, reports, false );
                const std::string b = replay( s, r.choices, reports, trace );
                if ( a.empty() || a != b ) {
                    printf( "ERROR scenario %s: violation does not replay (%s / %s / %s)\n", s.name.c_str(), r.text.c_str(), a.c_str(), b.c_str() );
                    return 2;
                }
                printf( "FAIL scenario=%s reports=%u choices=", s.name.c_str(), reports );
                for ( size_t i = 0; i < r.choices.size(); ++i )
                    printf( "%d ", r.choices[i] );
                printf( "\nWHAT %s: %s\n", s.name.c_str(), r.text.c_str() );
                fflush( stdout );
                rc = 1;
                break;
            }
        }
        return rc;
    }
}

