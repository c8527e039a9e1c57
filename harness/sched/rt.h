// Controlled-scheduler stateless model checker: interface for scenario bodies.
//
// All threads of the code under test run as fibers on one OS thread. Every synchronisation operation (mutex, condition
// variable, thread create / join, atomic access, static-local guard) is a scheduling point; which fiber runs next is a
// choice of the explorer, which enumerates all choices (see rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vp
{
    // semantic assertion of the property being checked: ends the execution with a violation when false
    void check( bool condition, const char * what );
    // explicit scheduling point (used inside task bodies to let other threads run in the middle of them)
    void point();
    // records what was observed in this execution (only used to count distinct outcomes)
    void observe( uint64_t value );
    // system failures: the number-th (from 0) memory request or thread creation of the calling thread (or of the given one, counted in the order
    // of creation) fails from now on, only this one
    void failAllocation( int number, int thread = -1 );
    void failThread( int number );
    // ends this, and tells whether the failure happened
    bool failed();
    // true when running inside an exploration
    bool active();

    struct Scenario
    {
        std::string name;
        std::function<void()> body; // must not capture state that survives an execution
        int bound; // preemption bound; -1: unbounded
        bool spurious; // explore spurious wake-ups (each costs one deviation when a bound is set)
        bool quick; // part of the quick tier
    };

    enum Report
    {
        REPORT_SEMANTIC = 1, // failed vp::check, unexpected exception
        REPORT_DEADLOCK = 2, // nobody can run, or no progress is made any more
        REPORT_RACE = 4, // conflicting unordered accesses
        REPORT_MEMORY = 8, // access to freed memory, double free, destruction of a locked mutex, crash
        REPORT_LEAK = 16 // memory allocated in the execution still live at its end
    };

    int explore_main( int argc, char ** argv, const std::vector<Scenario> & scenarios, unsigned defaultReports );
}
