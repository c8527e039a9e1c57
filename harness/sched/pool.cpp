// Scenarios for the thread pool (C01 tasks and waiting, C02 lifecycle, C03 races and lifetime, C35 failures of the system).
#include "penguinv_exception.h"
#include "thread_pool.h"
#include "rt.h"
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>

using namespace vp;

namespace
{
    const int MAXT = 8;

    // survives the provider it belongs to
    struct Log
    {
        int started[MAXT], finished[MAXT];
        int outOfRange;
        int byController; // tasks executed on the controlling thread
        std::mutex m;
        std::thread::id controller;
        bool closed; // no task may start any more
        int lateStart;
        Log()
        {
            reset();
            controller = std::this_thread::get_id();
        }
        void reset()
        {
            std::lock_guard<std::mutex> l( m );
            memset( started, 0, sizeof started );
            memset( finished, 0, sizeof finished );
            outOfRange = byController = lateStart = 0;
            closed = false;
        }
        int totalStarted()
        {
            std::lock_guard<std::mutex> l( m );
            int n = 0;
            for ( int i = 0; i < MAXT; ++i )
                n += started[i];
            return n;
        }
        uint64_t digest()
        {
            std::lock_guard<std::mutex> l( m );
            uint64_t d = 0;
            for ( int i = 0; i < MAXT; ++i )
                d = d * 5 + uint64_t( started[i] * 2 + finished[i] );
            return d;
        }
        void close()
        {
            std::lock_guard<std::mutex> l( m );
            closed = true;
        }
    };

    void begin( Log * log, size_t id ) // (the order of task starts is the observed outcome)
    {
        std::lock_guard<std::mutex> l( log->m );
        observe( id * 16 + std::hash<std::thread::id>()( std::this_thread::get_id() ) );
        if ( id >= size_t( MAXT ) )
            ++log->outOfRange;
        else
            ++log->started[id];
        if ( std::this_thread::get_id() == log->controller )
            ++log->byController;
        if ( log->closed )
            ++log->lateStart;
    }
    void finish( Log * log, size_t id )
    {
        std::lock_guard<std::mutex> l( log->m );
        if ( id < size_t( MAXT ) )
            ++log->finished[id];
    }

    // rendezvous of n tasks: completes only when n of them run at the same time
    struct Rendezvous
    {
        std::mutex m;
        std::condition_variable c;
        int need, here;
        explicit Rendezvous( int n )
            : need( n )
            , here( 0 )
        {}
        void arrive()
        {
            std::unique_lock<std::mutex> l( m );
            if ( ++here == need )
                c.notify_all();
            while ( here < need )
                c.wait( l );
        }
    };

    template <class Base>
    struct ProviderT : public Base
    {
        Log * log;
        unsigned throwMask;
        Rendezvous * rv;
        bool middle;
        template <class... A>
        explicit ProviderT( Log * l, unsigned mask, A... a )
            : Base( a... )
            , log( l )
            , throwMask( mask )
            , rv( nullptr )
            , middle( true )
        {}
        void run( size_t n )
        {
            Base::_run( n );
        }
        bool wait()
        {
            return Base::_wait();
        }
        bool ready() const
        {
            return Base::_ready();
        }
        void _task( size_t id ) override
        {
            begin( log, id );
            if ( rv )
                rv->arrive();
            else if ( middle )
                vp::point(); // others may run while the task is in the middle of its work
            if ( throwMask >> id & 1 )
            {
                finish( log, id );
                if ( id % 2 == 1 )
                    throw int( id ); // anything may be thrown
                throw std::runtime_error( "task" );
            }
            finish( log, id );
        }
    };
    typedef ProviderT<TaskProvider> Provider;
    typedef ProviderT<TaskProviderSingleton> SingletonProvider;

    void expectAll( Log * log, int n, const char * when )
    {
        std::lock_guard<std::mutex> l( log->m );
        check( log->outOfRange == 0, "a task was executed with an id outside of the submitted range" );
        for ( int i = 0; i < MAXT; ++i ) {
            if ( i < n ) {
                check( log->started[i] != 0, ( std::string( "a task was never executed: " ) + when ).c_str() );
                check( log->started[i] == 1, ( std::string( "a task was executed more than once: " ) + when ).c_str() );
                check( log->finished[i] == 1, ( std::string( "wait returned before a task had finished: " ) + when ).c_str() );
            }
            else
                check( log->started[i] == 0, "a task was executed with an id outside of the submitted range" );
        }
        check( log->byController == 0, "a task was executed by the submitting thread" );
    }
    void expectAtMostOnce( Log * log, int n )
    {
        std::lock_guard<std::mutex> l( log->m );
        check( log->outOfRange == 0, "a task was executed with an id outside of the submitted range" );
        for ( int i = 0; i < MAXT; ++i ) {
            check( log->started[i] <= ( i < n ? 1 : 0 ), "a task was executed more than once or with a wrong id" );
            check( log->finished[i] == log->started[i], "wait returned while a task was still running" );
        }
        check( log->byController == 0, "dropping tasks executed one of them" );
    }

    // ---------------------------------------------------------------------------------------------------------------- C01
    void runOnce( int workers, int tasks, unsigned mask )
    {
        std::unique_ptr<Log> log( new Log );
        {
            std::unique_ptr<ThreadPool> pool( new ThreadPool( size_t( workers ) ) );
            std::unique_ptr<Provider> p( new Provider( log.get(), mask, pool.get() ) );
            p->run( size_t( tasks ) );
            const bool ok = p->wait();
            expectAll( log.get(), tasks, "first run" );
            check( ok == ( ( mask & ( ( 1u << tasks ) - 1 ) ) == 0 ), "wait does not report exactly whether a task threw an exception" );
            p.reset(); // allowed as soon as wait returned
            observe( log->digest() );
        }
        expectAll( log.get(), tasks, "after the pool was destroyed" );
    }

    void rerun( int workers, int n1, unsigned m1, int n2, unsigned m2 )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        std::unique_ptr<Provider> p( new Provider( log.get(), m1, &pool ) );
        p->run( size_t( n1 ) );
        bool ok = p->wait();
        expectAll( log.get(), n1, "first run" );
        check( ok == ( m1 == 0 ), "wait does not report exactly whether a task threw an exception" );
        log->reset();
        p->throwMask = m2;
        p->run( size_t( n2 ) );
        ok = p->wait();
        expectAll( log.get(), n2, "second run" );
        check( ok == ( m2 == 0 ), "wait of a second run reports an exception of another run, or misses one" );
        check( p->wait(), "a wait without a run in between reports an exception" );
        p.reset();
    }

    void twoProviders( int workers, int n1, int n2, unsigned m1, bool swapWait )
    {
        std::unique_ptr<Log> la( new Log ), lb( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        std::unique_ptr<Provider> a( new Provider( la.get(), m1, &pool ) ), b( new Provider( lb.get(), 0, &pool ) );
        a->run( size_t( n1 ) );
        b->run( size_t( n2 ) );
        bool oa = true, ob = true;
        if ( swapWait ) {
            ob = b->wait();
            expectAll( lb.get(), n2, "second provider" );
            b.reset();
            oa = a->wait();
            expectAll( la.get(), n1, "first provider" );
            a.reset();
        }
        else {
            oa = a->wait();
            expectAll( la.get(), n1, "first provider" );
            a.reset();
            ob = b->wait();
            expectAll( lb.get(), n2, "second provider" );
            b.reset();
        }
        check( oa == ( m1 == 0 ), "wait does not report exactly whether a task threw an exception" );
        check( ob, "an exception was reported to the wrong provider" );
    }

    void twoSubmitters( int workers, int n1, int n2, unsigned m1 )
    {
        std::unique_ptr<Log> la( new Log ), lb( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        std::thread other( [&] {
            std::unique_ptr<Provider> b( new Provider( lb.get(), 0, &pool ) );
            b->run( size_t( n2 ) );
            const bool ok = b->wait();
            expectAll( lb.get(), n2, "other submitter" );
            check( ok, "an exception was reported to the wrong provider" );
        } );
        {
            std::unique_ptr<Provider> a( new Provider( la.get(), m1, &pool ) );
            a->run( size_t( n1 ) );
            const bool ok = a->wait();
            expectAll( la.get(), n1, "first submitter" );
            check( ok == ( m1 == 0 ), "wait does not report exactly whether a task threw an exception" );
        }
        other.join();
    }

    void singleton( int workers, int n, unsigned mask )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPoolMonoid::instance().resize( size_t( workers ) );
        {
            SingletonProvider p( log.get(), mask );
            p.run( size_t( n ) );
            const bool ok = p.wait();
            expectAll( log.get(), n, "global pool" );
            check( ok == ( mask == 0 ), "wait does not report exactly whether a task threw an exception" );
            log->reset();
            p.throwMask = 0;
            p.run( 1 );
            check( p.wait(), "a run without exception is reported as failed" );
            expectAll( log.get(), 1, "global pool, second run" );
        }
        ThreadPoolMonoid::instance().stop();
    }

    void zeroTasks( int workers )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        Provider p( log.get(), 0, &pool );
        p.run( 0 );
        check( p.wait(), "waiting for nothing reports an exception" );
        bool thrown = false;
        try {
            pool.add( &p, 0 );
        }
        catch ( penguinVException & ) {
            thrown = true;
        }
        check( thrown, "adding zero tasks is not refused" );
        check( pool.empty(), "pool is not empty after refusing a task" );
        ThreadPool none;
        thrown = false;
        try {
            none.add( &p, 1 );
        }
        catch ( penguinVException & ) {
            thrown = true;
        }
        check( thrown, "adding tasks to a pool without threads is not refused" );
        check( p.wait(), "wait after refused submissions fails" );
        thrown = false;
        try {
            none.resize( 0 );
        }
        catch ( penguinVException & ) {
            thrown = true;
        }
        check( thrown, "zero threads are not refused" );
        Provider q( log.get(), 0 );
        q.run( 1 ); // no pool: nothing happens
        check( q.wait(), "a provider without pool fails" );
        q.setThreadPool( &pool );
        q.run( 2 );
        check( q.wait(), "a provider given a pool later fails" );
        expectAll( log.get(), 2, "provider given a pool later" );
    }

    void copies( int workers )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        Provider p( log.get(), 1u, &pool );
        p.run( 2 );
        Provider q( p ); // a copy shares the pool, not the run
        check( q.wait(), "a copied provider takes part in the run of the original" );
        check( !p.wait(), "an exception is lost" );
        expectAll( log.get(), 2, "original" );
        log->reset();
        q.throwMask = 0;
        q.run( 2 );
        check( q.wait(), "a copied provider does not work" );
        expectAll( log.get(), 2, "copy" );
        log->reset();
        q.throwMask = 0;
        Provider r( log.get(), 0 );
        static_cast<TaskProvider &>( r ) = q;
        r.run( 1 );
        check( r.wait(), "an assigned provider does not work" );
        expectAll( log.get(), 1, "assigned" );
    }

    // asking about tasks while they are executed
    void queries( int workers )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        Provider p( log.get(), 0, &pool );
        check( pool.empty() && p.ready(), "a new pool has tasks" );
        p.run( 2 );
        const bool none = pool.empty();
        const bool ready = p.ready();
        check( pool.threadCount() == size_t( workers ), "threads are lost" );
        if ( ready ) { // all is done, nothing is waited for
            std::lock_guard<std::mutex> l( log->m );
            for ( int i = 0; i < 2; ++i )
                check( log->finished[i] == 1, "a provider is ready before its tasks are finished" );
        }
        observe( ( none ? 2 : 0 ) + ( ready ? 1 : 0 ) );
        check( p.wait(), "wait reports an exception although no task threw" );
        check( pool.empty() && p.ready(), "tasks remain although everything was waited for" );
        expectAll( log.get(), 2, "run with queries" );
    }

    // a run without waiting for the previous one: it is either done after the previous one or not at all
    void again( int workers )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        Provider p( log.get(), 0, &pool );
        p.run( 2 );
        p.run( 1 );
        check( p.wait(), "wait reports an exception although no task threw" );
        {
            std::lock_guard<std::mutex> l( log->m );
            check( log->started[0] == 1 || log->started[0] == 2, "the first task is executed another number of times" );
            check( log->started[1] == 1, "the second task is executed another number of times" );
            for ( int i = 0; i < MAXT; ++i )
                check( log->started[i] == log->finished[i] && ( i < 2 || log->started[i] == 0 ), "wait returned before the end of tasks" );
            check( log->outOfRange == 0 && log->byController == 0, "wrong tasks" );
        }
        check( pool.empty(), "tasks remain although everything was waited for" );
        log->reset();
        p.run( 2 );
        check( p.wait(), "wait reports an exception although no task threw" );
        expectAll( log.get(), 2, "run after a run without waiting" );
    }

    // assigning a provider gives it the pool of another one and has nothing to do with the run in progress
    void assignWhileRunning( int workers )
    {
        std::unique_ptr<Log> log( new Log ), other( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        Provider p( log.get(), 0, &pool ), q( other.get(), 0, &pool );
        p.run( 2 );
        static_cast<TaskProvider &>( p ) = q;
        static_cast<TaskProvider &>( q ) = p;
        q.run( 1 );
        check( p.wait(), "wait reports an exception although no task threw" );
        expectAll( log.get(), 2, "run of the assigned provider" );
        check( q.wait(), "wait reports an exception although no task threw" );
        expectAll( other.get(), 1, "run of the other provider" );
    }

    // ---------------------------------------------------------------------------------------------------------------- C02
    // all W workers must be able to run at the same time
    void rendezvous( ThreadPool & pool, int n )
    {
        std::unique_ptr<Log> log( new Log );
        std::unique_ptr<Rendezvous> rv( new Rendezvous( n ) );
        std::unique_ptr<Provider> p( new Provider( log.get(), 0, &pool ) );
        p->rv = rv.get();
        p->run( size_t( n ) );
        check( p->wait(), "tasks that wait for each other failed" );
        expectAll( log.get(), n, "tasks that wait for each other" );
    }

    // operations of the controlling thread
    enum Op
    {
        RUN2, // submit two tasks (when no run is pending)
        WAIT,
        CLEAR,
        STOP,
        REMOVE,
        RESIZE1,
        RESIZE2,
        RESIZE3,
        OPS
    };
    const char * opNames[OPS] = {"run2", "wait", "clear", "stop", "remove", "resize1", "resize2", "resize3"};

    void lifecycle( int workers, const std::vector<int> & ops, bool destroyPoolFirst, bool full )
    {
        std::unique_ptr<Log> log( new Log );
        std::unique_ptr<ThreadPool> pool( new ThreadPool( size_t( workers ) ) );
        std::unique_ptr<Provider> p( new Provider( log.get(), 0, pool.get() ) );
        int threads = workers;
        int tasks = 0; // tasks of the current run
        bool pending = false, dropped = false;
        const auto finishRun = [&]() {
            check( p->wait(), "wait reports an exception although no task threw" );
            if ( dropped )
                expectAtMostOnce( log.get(), tasks );
            else
                expectAll( log.get(), tasks, "run during lifecycle operations" );
            check( pool == nullptr || pool->empty(), "the pool is not empty although everything was waited for" );
            pending = false;
            log->close();
        };
        for ( int op : ops ) {
            switch ( op ) {
            case RUN2:
                if ( pending )
                    finishRun();
                check( log->lateStart == 0, "a task started after its run was over" );
                log->reset();
                dropped = false;
                if ( threads == 0 ) {
                    bool thrown = false;
                    try {
                        p->run( 2 );
                    }
                    catch ( penguinVException & ) {
                        thrown = true;
                    }
                    check( thrown, "submitting to a stopped pool is not refused" );
                    tasks = 0;
                }
                else {
                    p->run( 2 );
                    tasks = 2;
                    pending = true;
                }
                break;
            case WAIT:
                finishRun();
                break;
            case CLEAR:
                pool->clear();
                dropped = true;
                check( pool->empty(), "clear leaves tasks behind" );
                break;
            case STOP:
                pool->stop();
                threads = 0;
                dropped = true;
                {
                    check( pool->empty(), "stop leaves tasks behind" );
                    std::lock_guard<std::mutex> l( log->m );
                    for ( int i = 0; i < MAXT; ++i )
                        check( log->started[i] == log->finished[i], "stop returned while a task was running" );
                }
                log->close(); // nothing may start any more
                break;
            case REMOVE:
                pool->remove( p.get() );
                dropped = true;
                check( pool->empty(), "remove leaves tasks behind" );
                break;
            case RESIZE1:
            case RESIZE2:
            case RESIZE3:
                threads = op - RESIZE1 + 1;
                pool->resize( size_t( threads ) );
                break;
            }
            check( pool->threadCount() == size_t( threads ), "the pool does not have the requested number of threads" );
        }
        if ( destroyPoolFirst ) {
            const bool stillPending = pending;
            p->setThreadPool( nullptr );
            pool.reset();
            dropped = true;
            if ( stillPending )
                finishRun();
        }
        else {
            finishRun();
            if ( full && threads > 0 )
                rendezvous( *pool, threads );
            p.reset();
            pool.reset();
        }
        check( log->lateStart == 0, "a task started after its run was over" );
        observe( log->digest() );
    }

    void dropOne( int workers, int which )
    {
        std::unique_ptr<Log> la( new Log ), lb( new Log );
        std::unique_ptr<ThreadPool> pool( new ThreadPool( size_t( workers ) ) );
        std::unique_ptr<Provider> a( new Provider( la.get(), 0, pool.get() ) ), b( new Provider( lb.get(), 0, pool.get() ) );
        a->run( 2 );
        b->run( 2 );
        if ( which == 0 ) {
            pool->remove( a.get() );
            a->wait();
            expectAtMostOnce( la.get(), 2 );
            la->close();
            a.reset();
            check( b->wait(), "removing the tasks of one provider disturbs another one" );
            expectAll( lb.get(), 2, "provider that was not removed" );
        }
        else if ( which == 1 ) {
            pool->clear();
            b->wait();
            expectAtMostOnce( lb.get(), 2 );
            lb->close();
            b.reset();
            a->wait();
            expectAtMostOnce( la.get(), 2 );
            la->close();
        }
        else {
            pool->stop();
            a->wait();
            b->wait();
            expectAtMostOnce( la.get(), 2 );
            expectAtMostOnce( lb.get(), 2 );
            la->close();
            lb->close();
            pool->resize( 2 );
            rendezvous( *pool, 2 );
        }
        a.reset();
        b.reset();
        pool.reset();
        check( la->lateStart == 0 && lb->lateStart == 0, "a task started after it was dropped" );
        observe( la->digest() * 31 + lb->digest() );
    }

    // another thread waits while the controlling thread drops or stops
    void dropWhileWaiting( int workers, int which )
    {
        std::unique_ptr<Log> log( new Log );
        std::unique_ptr<ThreadPool> pool( new ThreadPool( size_t( workers ) ) );
        std::unique_ptr<Provider> p( new Provider( log.get(), 0, pool.get() ) );
        p->run( 2 );
        std::thread waiter( [&] {
            check( p->wait(), "wait reports an exception although no task threw" );
            std::lock_guard<std::mutex> l( log->m );
            for ( int i = 0; i < MAXT; ++i )
                check( log->started[i] == log->finished[i] && log->started[i] <= 1, "wait returned while a task was running" );
            log->closed = true;
        } );
        if ( which == 0 )
            pool->clear();
        else if ( which == 1 )
            pool->stop();
        else if ( which == 2 )
            pool->remove( p.get() );
        else
            pool->resize( size_t( workers ) + 1 );
        waiter.join();
        check( log->lateStart == 0, "a task started after its run was over" );
        p.reset();
        pool.reset();
    }

    // ---------------------------------------------------------------------------------------------------------------- C35
    // The number-th thread creation or memory request of an operation fails. The operation may succeed without it or must throw; afterwards
    // everything works again.
    template <class F>
    bool withFailure( bool thread, int number, F && operation )
    {
        bool thrown = false;
        if ( thread )
            vp::failThread( number );
        else
            vp::failAllocation( number );
        try {
            operation();
        }
        catch ( const std::exception & ) {
            thrown = true;
        }
        const bool failed = vp::failed();
        check( failed || !thrown, "an operation throws an exception without a failure" );
        return thrown;
    }
    // the pool runs as many tasks at the same time as it has threads, and every task once
    void expectWorking( ThreadPool & pool, size_t threads )
    {
        check( pool.threadCount() == threads, "a pool does not have the requested number of threads" );
        std::unique_ptr<Log> log( new Log );
        Rendezvous rv( static_cast<int>( threads ) );
        Provider p( log.get(), 0, &pool );
        p.rv = &rv;
        p.run( threads );
        check( p.wait(), "a run without exception is reported as failed" );
        expectAll( log.get(), int( threads ), "after a failure" );
        check( pool.empty(), "the queue is not empty after all tasks" );
    }
    void failedConstruction( bool thread, int number, int workers )
    {
        std::unique_ptr<ThreadPool> pool;
        if ( withFailure( thread, number, [&] { pool.reset( new ThreadPool( size_t( workers ) ) ); } ) ) {
            check( pool == nullptr, "a pool exists after its constructor failed" );
            pool.reset( new ThreadPool( size_t( workers ) ) );
        }
        expectWorking( *pool, size_t( workers ) );
    }
    // resize from one size to another fails, possibly while tasks are waiting, then another size is requested
    void failedResize( bool thread, int number, int from, int to, int then, bool busy )
    {
        std::unique_ptr<Log> log( new Log );
        ThreadPool pool( ( size_t( from ) ) );
        Provider p( log.get(), 0, &pool );
        if ( busy )
            p.run( 2 );
        const bool thrown = withFailure( thread, number, [&] { pool.resize( size_t( to ) ); } );
        check( thrown ? pool.threadCount() < size_t( to ) && pool.threadCount() >= size_t( from ) : pool.threadCount() == size_t( to ),
               "a pool has a wrong number of threads after a failed change of it" );
        if ( busy ) {
            check( p.wait(), "a run without exception is reported as failed" );
            expectAll( log.get(), 2, "while changing the number of threads fails" );
        }
        if ( then == 0 )
            return; // destroyed
        if ( then < 0 ) {
            pool.stop();
            then = -then;
        }
        pool.resize( size_t( then ) );
        expectWorking( pool, size_t( then ) );
    }
    // a submission fails
    void failedSubmission( int number, int workers, int tasks, bool other )
    {
        std::unique_ptr<Log> log( new Log ), otherLog( new Log );
        ThreadPool pool( ( size_t( workers ) ) );
        Provider p( log.get(), 0, &pool ), q( otherLog.get(), 0, &pool );
        if ( other )
            q.run( 2 );
        const bool thrown = withFailure( false, number, [&] { p.run( size_t( tasks ) ); } );
        const bool ok = p.wait();
        if ( thrown )
            expectAtMostOnce( log.get(), tasks );
        else {
            check( ok, "a run without exception is reported as failed" );
            expectAll( log.get(), tasks, "memory failure which was overcome" );
        }
        if ( other ) {
            check( q.wait(), "a run without exception is reported as failed" );
            expectAll( otherLog.get(), 2, "another provider while a submission fails" );
        }
        log->reset();
        p.run( size_t( tasks ) );
        check( p.wait(), "a run without exception is reported as failed" );
        expectAll( log.get(), tasks, "after a failed submission" );
    }
    // memory ends within a task: this is an exception of the task
    void failedTask( int workers )
    {
        struct Greedy : public TaskProvider
        {
            using TaskProvider::TaskProvider;
            std::atomic<int> done{0};
            bool once( size_t n )
            {
                _run( n );
                return _wait();
            }
            void _task( size_t id ) override
            {
                if ( id == 0 )
                    vp::failAllocation( 0 );
                std::vector<int> v( 10 );
                vp::failed();
                ++done;
            }
        };
        ThreadPool pool( ( size_t( workers ) ) );
        Greedy g( &pool );
        check( !g.once( 2 ), "a task which lacks memory is not reported" );
        check( g.done == 1, "tasks are lost when one of them lacks memory" );
    }

    std::string nm( const char * base, std::initializer_list<int> v )
    {
        std::string s = base;
        for ( int x : v )
            s += "_" + std::to_string( x );
        return s;
    }
    std::string seqName( int w, const std::vector<int> & ops, bool d )
    {
        std::string s = "seq_w" + std::to_string( w );
        for ( int o : ops )
            s += std::string( "-" ) + opNames[o];
        return s + ( d ? "-destroy" : "" );
    }
}

int main( int argc, char ** argv )
{
    std::string set = argc > 1 ? argv[1] : "C01";
    std::vector<Scenario> v;
    const auto add = [&]( const std::string & n, std::function<void()> f, int bound, bool spurious, bool quick ) { v.push_back( Scenario{n, f, bound, spurious, quick} ); };

    const bool all = set == "C03";
    if ( set == "C01" || all ) {
        // {workers, tasks, throwing tasks}: unbounded = every interleaving
        for ( int w = 1; w <= 3; ++w )
            for ( int n = 1; n <= 3; ++n ) {
                const bool small = w * n <= 2;
                const bool tiny = w * n <= 4;
                add( nm( "once", {w, n, 0} ), [=] { runOnce( w, n, 0 ); }, w == 3 && n > 1 ? 1 : 2, false, tiny || !all );
                add( nm( "onceFull", {w, n, 0} ), [=] { runOnce( w, n, 0 ); }, small ? -1 : 3, false, small );
                add( nm( "onceSpurious", {w, n, 0} ), [=] { runOnce( w, n, 0 ); }, tiny ? 2 : 1, true, small );
            }
        for ( unsigned m = 1; m < 4; ++m )
            add( nm( "throw", {2, 2, int( m )} ), [=] { runOnce( 2, 2, m ); }, 2, false, !all );
        for ( unsigned m = 1; m < 8; ++m )
            add( nm( "throw3", {2, 3, int( m )} ), [=] { runOnce( 2, 3, m ); }, 2, false, false );
        for ( int w = 1; w <= 2; ++w ) {
            add( nm( "rerun", {w, 1, 2} ), [=] { rerun( w, 1, 0, 2, 0 ); }, 2, false, true );
            add( nm( "rerunThrow", {w, 2, 1} ), [=] { rerun( w, 2, 1, 1, 0 ); }, 2, false, !all );
            add( nm( "rerunThrowBoth", {w, 2, 2} ), [=] { rerun( w, 2, 2, 2, 1 ); }, 2, false, false );
            add( nm( "rerunLater", {w, 1, 2} ), [=] { rerun( w, 1, 0, 2, 2 ); }, 2, false, false );
        }
        add( "rerun3", [=] { rerun( 3, 2, 0, 3, 0 ); }, 2, false, false );
        for ( int w = 1; w <= 2; ++w )
            for ( int s = 0; s <= 1; ++s ) {
                add( nm( "two", {w, 1, 1, s} ), [=] { twoProviders( w, 1, 1, 0, s != 0 ); }, 2, false, true );
                add( nm( "two", {w, 2, 2, s} ), [=] { twoProviders( w, 2, 2, 2, s != 0 ); }, w == 1 ? 2 : 1, false, !all );
                add( nm( "two", {w, 3, 2, s} ), [=] { twoProviders( w, 3, 2, 1, s != 0 ); }, 2, false, false );
            }
        add( "submitters_1_1_1", [=] { twoSubmitters( 1, 1, 1, 0 ); }, 2, false, true );
        add( "submitters_2_1_1", [=] { twoSubmitters( 2, 1, 1, 0 ); }, 2, false, true );
        add( "submitters_2_2_1", [=] { twoSubmitters( 2, 2, 1, 1 ); }, 1, false, true );
        add( "submitters_1_2_2", [=] { twoSubmitters( 1, 2, 2, 0 ); }, 2, false, !all );
        add( "submitters_2_2_2", [=] { twoSubmitters( 2, 2, 2, 2 ); }, 2, false, false );
        add( "submitters_3_2_2", [=] { twoSubmitters( 3, 2, 2, 0 ); }, 2, false, false );
        add( "singleton_1_1", [=] { singleton( 1, 1, 0 ); }, 2, false, true );
        add( "singleton_2_2", [=] { singleton( 2, 2, 2 ); }, 2, false, !all );
        add( "zero_1", [=] { zeroTasks( 1 ); }, 2, false, true );
        add( "zero_2", [=] { zeroTasks( 2 ); }, 1, false, false );
        for ( int w = 1; w <= 2; ++w ) {
            add( nm( "queries", {w} ), [=] { queries( w ); }, w == 1 ? 2 : 1, false, true );
            add( nm( "assignWhileRunning", {w} ), [=] { assignWhileRunning( w ); }, w == 1 ? 2 : 1, false, true );
            add( nm( "again", {w} ), [=] { again( w ); }, w == 1 ? 2 : 1, false, true );
        }
        add( "copies_1", [=] { copies( 1 ); }, 2, false, true );
        add( "copies_2", [=] { copies( 2 ); }, 1, false, false );
    }
    if ( set == "C02" || all ) {
        for ( int which = 0; which < 3; ++which ) {
            for ( int w = 1; w <= 2; ++w )
                add( nm( "dropOne", {w, which} ), [=] { dropOne( w, which ); }, w == 1 ? 2 : ( all ? 1 : 2 ), false, true );
        }
        for ( int which = 0; which < 4; ++which ) {
            for ( int w = 1; w <= 2; ++w )
                add( nm( "dropWhileWaiting", {w, which} ), [=] { dropWhileWaiting( w, which ); }, w == 1 ? 2 : ( all ? 1 : 2 ), false, true );
            add( nm( "dropWhileWaitingSpurious", {1, which} ), [=] { dropWhileWaiting( 1, which ); }, 1, true, true );
        }
        // every sequence of controlling operations up to a length, on pools of 1 and 2 threads
        for ( int w = 1; w <= 2; ++w )
            for ( int len = 1; len <= 4; ++len ) {
                std::vector<int> ops( size_t( len ), 0 );
                for ( ;; ) {
                    // the interesting sequences submit something, and do not drop or wait twice in a row
                    bool run = false, useless = false;
                    for ( int i = 0; i < len; ++i ) {
                        if ( ops[size_t( i )] == RUN2 )
                            run = true;
                        if ( i > 0 && ops[size_t( i )] == ops[size_t( i - 1 )] && ops[size_t( i )] != RUN2 && ops[size_t( i )] != STOP )
                            useless = true;
                    }
                    if ( run && !useless ) {
                        const std::vector<int> o = ops;
                        bool three = false; // with three workers the space is much larger
                        for ( int x : o )
                            three = three || x == RESIZE3;
                        const bool dull = ops[0] == WAIT || ops[0] == CLEAR || ops[0] == REMOVE; // nothing was submitted yet
                        for ( int d = 0; d <= 1; ++d ) {
                            if ( len == 4 && ( w == 2 || dull || d || three ) )
                                continue;
                            bool quick = len <= 2;
                            int bound = three ? 1 : 2;
                            if ( len == 3 ) {
                                quick = !all && !dull && !d && !three && w == 1;
                                bound = 1;
                            }
                            if ( len == 4 )
                                bound = 1;
                            if ( all && len == 2 )
                                bound = 1;
                            add( seqName( w, o, d != 0 ), [=] { lifecycle( w, o, d != 0, len <= 2 || ( len == 3 && !three ) ); }, bound, false, quick );
                            if ( len <= 3 && !dull ) // deeper in the thorough tier
                                add( seqName( w, o, d != 0 ) + "-deep", [=] { lifecycle( w, o, d != 0, !three ); }, len == 3 && ( three || w == 2 ) ? 1 : 2, false, false );
                        }
                    }
                    int k = 0;
                    while ( k < len && ++ops[size_t( k )] == OPS )
                        ops[size_t( k++ )] = 0;
                    if ( k == len )
                        break;
                }
            }
    }
    if ( set == "C35" ) {
        for ( int w = 1; w <= 3; ++w ) {
            for ( int k = 0; k < w; ++k )
                add( nm( "constructThread", {w, k} ), [=] { failedConstruction( true, k, w ); }, w == 3 ? 1 : 2, false, w < 3 || k > 0 );
            for ( int k = 0; k < 10; ++k )
                add( nm( "constructMemory", {w, k} ), [=] { failedConstruction( false, k, w ); }, w == 1 ? 2 : 1, false, w < 3 );
        }
        for ( int from = 0; from <= 2; ++from )
            for ( int to = from + 1; to <= 3; ++to )
                for ( int then : {0, 1, 2, 3, -1, -2} )
                    for ( int busy = 0; busy <= ( from > 0 ? 1 : 0 ); ++busy ) {
                        const bool small = to <= 2 && then <= 2;
                        for ( int k = 0; k < to - from; ++k )
                            add( nm( "resizeThread", {from, to, then, busy, k} ), [=] { failedResize( true, k, from, to, then, busy != 0 ); }, small && !busy ? 2 : 1, false,
                                 small || ( then == 2 && !busy ) );
                        for ( int k = 0; k < 8; ++k )
                            add( nm( "resizeMemory", {from, to, then, busy, k} ), [=] { failedResize( false, k, from, to, then, busy != 0 ); }, 1, false, small && ( then != -1 || from == 0 ) );
                    }
        for ( int w = 1; w <= 2; ++w )
            for ( int n = 1; n <= 3; ++n )
                for ( int other = 0; other <= 1; ++other )
                    for ( int k = 0; k <= n; ++k )
                        add( nm( "submit", {w, n, other, k} ), [=] { failedSubmission( k, w, n, other != 0 ); }, w == 1 && n < 3 ? 2 : 1, false, n < 3 || w == 1 );
        for ( int w = 1; w <= 2; ++w )
            add( nm( "task", {w} ), [=] { failedTask( w ); }, 2, false, true );
    }
    unsigned reports = REPORT_SEMANTIC | REPORT_DEADLOCK | REPORT_MEMORY;
    if ( set == "C35" )
        reports |= REPORT_RACE | REPORT_LEAK;
    if ( all )
        reports = REPORT_RACE | REPORT_MEMORY;
    return explore_main( argc - 1, argv + 1, v, reports );
}
