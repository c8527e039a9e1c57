// C23: line extraction.
#include "math/hough_transform.h"
#include "vp.h"
#include <algorithm>
#include <cmath>

using namespace vp;

namespace
{
    const double pi = 3.14159265358979323846;

    template <typename T>
    struct Case
    {
        std::vector<PointBase2D<T>> points;
        T angle, angleTolerance, angleStep, lineTolerance;
    };

    template <typename T>
    bool same( const PointBase2D<T> & a, const PointBase2D<T> & b )
    {
        return a.x == b.x && a.y == b.y;
    }

    template <typename T>
    void check( const Case<T> & c )
    {
        typedef std::vector<PointBase2D<T>> Points;
        phase( "%s, angle %g +- %g step %g, tolerance %g", sizeof( T ) == 8 ? "double" : "float", double( c.angle ), double( c.angleTolerance ), double( c.angleStep ), double( c.lineTolerance ) );
        const Points marker = { PointBase2D<T>( 1001, 1002 ), PointBase2D<T>( 1003, 1004 ), PointBase2D<T>( 1005, 1006 ) };
        Points on( marker ), off( marker );
        const Points input( c.points );
        ++ctx().calls;
        const bool done = Image_Function::HoughTransform( input, c.angle, c.angleTolerance, c.angleStep, c.lineTolerance, on, off );
        ++ctx().compared;
        if ( done != ( input.size() >= 2 ) )
            fail( "result is %d for %zu points", done, input.size() );
        for ( size_t i = 0; i < input.size(); ++i )
            if ( !same( input[i], c.points[i] ) )
                fail( "input was changed" );
        if ( !done ) {
            ++ctx().refused;
            if ( on.size() != marker.size() || off.size() != marker.size() || !std::equal( on.begin(), on.end(), marker.begin(), same<T> ) || !std::equal( off.begin(), off.end(), marker.begin(), same<T> ) )
                fail( "a refused call changed the outputs" );
            return;
        }
        // every point is in exactly one list, in order
        size_t a = 0, b = 0;
        for ( const auto & p : input ) {
            if ( a < on.size() && same( on[a], p ) )
                ++a;
            else if ( b < off.size() && same( off[b], p ) )
                ++b;
            else
                fail( "point %g,%g is lost or not in order (%zu on line, %zu off line, %zu given)", double( p.x ), double( p.y ), on.size(), off.size(), input.size() );
        }
        if ( a != on.size() || b != off.size() )
            fail( "%zu points on line and %zu off line are not from the input", on.size() - a, off.size() - b );

        // the scanned angles
        const double minimumStep = double( 0.001f * float( pi ) / 180.0f ), minimumTolerance = double( 1e-5f );
        const double step = std::max( double( c.angleStep ), minimumStep ), range = std::max( std::max( double( c.angleTolerance ), minimumStep ), step ),
                     tolerance = std::max( double( c.lineTolerance ), minimumTolerance );
        // whether an angle at the very end belongs to the range depends on rounding
        const double ratio = range / step, doubt = sizeof( T ) == 8 ? 1e-9 : 1e-4 * ( 1 + ratio ) / 10;
        const int64_t certain = int64_t( std::floor( ratio + 0.5 - doubt ) ), possible = int64_t( std::floor( ratio + 0.5 + doubt ) );
        double scale = 1;
        for ( const auto & p : input )
            scale = std::max( scale, std::max( std::fabs( double( p.x ) ), std::fabs( double( p.y ) ) ) );
        const double eps = sizeof( T ) == 8 ? 1e-10 * scale : 4e-6 * scale * ( 1 + std::fabs( double( c.angle ) ) ) * ( 1 + double( possible ) / 20 );

        size_t best = 0;
        bool explained = false;
        std::vector<double> distance( input.size() );
        double bestAngle = 0;
        for ( int64_t k = -possible; k <= possible; ++k ) {
            const double angle = double( c.angle ) + double( k ) * step, s = std::sin( angle ), co = std::cos( angle );
            auto position = [&]( const PointBase2D<T> & p ) { return double( p.y ) * co - double( p.x ) * s; };
            if ( k >= -certain && k <= certain ) {
                for ( size_t i = 0; i < input.size(); ++i )
                    distance[i] = position( input[i] );
                std::sort( distance.begin(), distance.end() );
                for ( size_t i = 0, j = 0; i < distance.size(); ++i ) {
                    while ( j < distance.size() && distance[j] - distance[i] <= 2 * tolerance - 2 * eps )
                        ++j;
                    if ( j > i && j - i > best ) {
                        best = j - i;
                        bestAngle = angle;
                    }
                }
            }
            if ( !explained && !on.empty() ) {
                double low = position( on[0] ), high = low;
                for ( const auto & p : on ) {
                    low = std::min( low, position( p ) );
                    high = std::max( high, position( p ) );
                }
                bool fits = high - low <= 2 * tolerance + 2 * eps;
                for ( const auto & p : off )
                    fits = fits && std::fabs( position( p ) - ( low + high ) / 2 ) >= tolerance - 2 * eps;
                explained = fits;
            }
        }
        ctx().compared += 2;
        if ( on.size() < std::max<size_t>( best, 1 ) )
            fail( "%zu points on line, but a line of angle %g has %zu", on.size(), bestAngle, best );
        if ( !explained )
            fail( "no line of a scanned angle has exactly the %zu points reported on line within its tolerance", on.size() );
    }

    template <typename T>
    void settings( const std::vector<PointBase2D<T>> & points, bool wide )
    {
        Case<T> c;
        c.points = points;
        const double angles[] = { 0, pi / 4, -pi / 2, 0.3 };
        const double ranges[] = { 0, pi / 18, pi / 2 };
        const double steps[] = { pi / 36, 0.2, 1 };
        const double tolerances[] = { 0, 0.1, 0.5, 1, 0.70710678118654757 };
        for ( double a : angles )
            for ( double r : ranges )
                for ( double s : steps )
                    for ( double t : tolerances ) {
                        if ( !wide && ( t == 0.1 || s == 0.2 ) )
                            continue;
                        c.angle = T( a );
                        c.angleTolerance = T( r );
                        c.angleStep = T( s );
                        c.lineTolerance = T( t );
                        check( c );
                    }
    }

    template <typename T>
    void grids( int side, uint32_t count, double factor, double base, bool wide )
    {
        uint64_t total = 1;
        for ( uint32_t i = 0; i < count; ++i )
            total *= uint64_t( side * side );
        const uint64_t blockSize = 64;
        for ( uint64_t block = 0; block * blockSize < total; ++block ) {
            if ( !next() )
                continue;
            for ( uint64_t n = block * blockSize; n < total && n < ( block + 1 ) * blockSize; ++n ) {
                std::vector<PointBase2D<T>> p;
                uint64_t c = n;
                std::string text;
                for ( uint32_t i = 0; i < count; ++i, c /= uint64_t( side * side ) ) {
                    const int cell = int( c % uint64_t( side * side ) );
                    p.push_back( PointBase2D<T>( T( base + factor * ( cell % side ) ), T( base - factor * ( cell / side ) ) ) );
                    text += " " + std::to_string( p.back().x ) + "," + std::to_string( p.back().y );
                }
                label( "points%s", text.c_str() );
                settings( p, wide );
            }
        }
    }

    template <typename T>
    void special()
    {
        // steps and tolerances below their minimum, negative ones, and many angles
        const double values[][3] = { { 0.01, 0, 0 }, { -1, 0.1, -1 }, { 0, 0, 0 }, { 0.002, 1e-6, 1e-7 }, { 3.2, 0.001, 0.5 }, { 0.5, 2, 0.2 }, { 1, 1, 0.2 }, { 0.25, 0.1, 0.2 } };
        for ( auto & v : values )
            for ( int shape = 0; shape < 6; ++shape )
                for ( int angle = -3; angle <= 3; ++angle ) {
                    if ( !next() )
                        continue;
                    label( "shape %d, settings %g %g %g", shape, v[0], v[1], v[2] );
                    Case<T> c;
                    for ( int i = 0; i < 24; ++i ) {
                        const int k = ( i * 7 ) % 24;
                        double x = k, y = 0;
                        if ( shape == 1 )
                            y = 0.5 * k + ( k % 5 == 0 ? 3 : 0 );
                        if ( shape == 2 ) {
                            x = 2;
                            y = k % 3 ? k : 4;
                            x += k % 4 == 0 ? k : 0;
                        }
                        if ( shape == 3 ) {
                            x = k % 5;
                            y = k / 5;
                        }
                        if ( shape == 4 ) {
                            x = 10 * std::cos( k * 0.7 );
                            y = 10 * std::sin( k * 0.7 );
                        }
                        if ( shape == 5 )
                            x = y = 3;
                        c.points.push_back( PointBase2D<T>( T( x ), T( y ) ) );
                    }
                    c.angle = T( angle * 0.6 );
                    c.angleTolerance = T( v[0] );
                    c.angleStep = T( v[1] );
                    c.lineTolerance = T( v[2] );
                    check( c );
                }
        // more points than 8 and 16 bits can count
        for ( uint32_t count : { 255u, 256u, 257u, 300u, 1000u, 65535u, 65537u, 70000u } )
            for ( int shape = 0; shape < 3; ++shape ) {
                if ( !next() )
                    continue;
                label( "%u points, shape %d", count, shape );
                Case<T> c;
                for ( uint32_t i = 0; i < count; ++i ) {
                    const double k = double( i * 7919ull % count ) / count * 64;
                    const double off = shape == 0 ? 0 : shape == 1 ? ( i % 3 == 0 ? 40 + double( i % 17 ) : 0 ) : ( i * 2654435761u >> 20 ) % 64;
                    c.points.push_back( PointBase2D<T>( T( k ), T( k / 2 + off ) ) );
                }
                c.angle = T( std::atan( 0.5 ) );
                c.lineTolerance = T( 0.3 );
                for ( double range : { 0.0, 0.06 } ) {
                    c.angleTolerance = T( range );
                    c.angleStep = T( 0.02 );
                    check( c );
                }
            }
        for ( uint32_t count = 0; count < 2; ++count ) {
            if ( !next() )
                continue;
            label( "%u points", count );
            settings( std::vector<PointBase2D<T>>( count, PointBase2D<T>( 1, 2 ) ), true );
        }
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    const bool thorough = ctx().thorough;
    grids<double>( 3, 2, 1, 0, true );
    grids<double>( 3, 3, 1, -1, true );
    grids<double>( 4, 3, 0.35, 10, thorough );
    grids<double>( 3, 4, 1, 0, thorough );
    grids<double>( 2, 5, 2, 1, thorough );
    grids<float>( 3, 2, 1, 0, true );
    grids<float>( 3, 3, 0.5, -1, true );
    if ( thorough ) {
        grids<double>( 5, 3, 0.1, 100, false );
        grids<double>( 3, 5, 1, -1, false );
        grids<float>( 3, 4, 1, 0, true );
    }
    special<double>();
    special<float>();
    vp::finish();
    return 0;
}
