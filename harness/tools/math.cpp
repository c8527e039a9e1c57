// C22: points, lines, linear systems and the Haar transform against exact arithmetic.
#include "math/haar_transform.h"
#include "math/math_base.h"
#include "penguinv_exception.h"
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <list>
#include <memory>

using namespace vp;

namespace
{
    template <typename T>
    const char * typeName()
    {
        return sizeof( T ) == 8 ? "double" : "float";
    }

    template <typename T>
    bool nearly( T value, double expected, double scale )
    {
        return std::fabs( double( value ) - expected ) <= ( sizeof( T ) == 8 ? 1e-12 : 2e-6 ) * ( scale + std::fabs( expected ) );
    }

    bool refused( const std::function<void()> & f )
    {
        ++ctx().calls;
        try {
            f();
        }
        catch ( const penguinVException & ) {
            ++ctx().refused;
            return true;
        }
        return false;
    }

    void require( bool condition, const char * what )
    {
        ++ctx().compared;
        if ( !condition )
            fail( "%s", what );
    }

    // ---- points ----
    template <typename T>
    void points( const char * type )
    {
        for ( int ax = -2; ax <= 2; ++ax )
            for ( int ay = -2; ay <= 2; ++ay ) {
                if ( !next() )
                    continue;
                label( "points of %s: %d %d", type, ax, ay );
                const PointBase2D<T> a{ T( ax ), T( ay ) }, zero;
                require( zero.x == 0 && zero.y == 0 && PointBase3D<T>().z == 0 && PointBase3D<T>().x == 0 && PointBase3D<T>().y == 0, "a new point is not the origin" );
                for ( int bx = -2; bx <= 2; ++bx )
                    for ( int by = -2; by <= 2; ++by ) {
                        const PointBase2D<T> b{ T( bx ), T( by ) };
                        const bool same = ax == bx && ay == by;
                        require( ( a == b ) == same && ( a != b ) == !same, "comparison of 2D points" );
                        PointBase2D<T> c( a ), d( a );
                        require( &( c += b ) == &c && &( d -= b ) == &d, "+= or -= returns something else" );
                        require( c.x == T( ax + bx ) && c.y == T( ay + by ) && d.x == T( ax - bx ) && d.y == T( ay - by ), "+= or -= of 2D points" );
                        const PointBase2D<T> e = a + b, f = a - b, g = a * T( bx ), h = T( by ) * a, m = by * a;
                        require( e.x == T( ax + bx ) && e.y == T( ay + by ) && f.x == T( ax - bx ) && f.y == T( ay - by ), "+ or - of 2D points" );
                        require( g.x == T( ax * bx ) && g.y == T( ay * bx ) && h.x == T( ax * by ) && h.y == T( ay * by ) && m.x == h.x && m.y == h.y, "product of 2D points" );
                        ctx().calls += 9;
                        for ( int az = -1; az <= 1; ++az )
                            for ( int bz = -1; bz <= 1; ++bz ) {
                                const PointBase3D<T> p{ T( ax ), T( ay ), T( az ) }, q{ T( bx ), T( by ), T( bz ) };
                                const bool same3 = same && az == bz;
                                require( ( p == q ) == same3, "equality of 3D points" );
                                require( ( p != q ) == !same3, "inequality of 3D points" );
                                PointBase3D<T> r( p ), s( p );
                                require( &( r += q ) == &r && &( s -= q ) == &s, "+= or -= returns something else" );
                                const PointBase3D<T> t = p + q, u = p - q;
                                require( r.x == T( ax + bx ) && r.y == T( ay + by ) && r.z == T( az + bz ) && t.x == r.x && t.y == r.y && t.z == r.z, "sum of 3D points" );
                                require( s.x == T( ax - bx ) && s.y == T( ay - by ) && s.z == T( az - bz ) && u.x == s.x && u.y == s.y && u.z == s.z, "difference of 3D points" );
                                ctx().calls += 6;
                            }
                    }
            }
        // nearly equal coordinates
        if ( std::is_floating_point<T>::value && next() ) {
            label( "nearly equal points of %s", type );
            const T epsilon = T( sizeof( T ) == 8 ? pvmath::epsilonDouble : pvmath::epsilonFloat );
            const T steps[] = { 0, T( 0.3 ), T( 0.9 ), T( 1.1 ), 2, 100 };
            for ( T s : steps )
                for ( int sign = -1; sign <= 1; sign += 2 )
                    for ( int axis = 0; axis < 3; ++axis ) {
                        const T d = s * epsilon * T( sign );
                        PointBase3D<T> p( 0, 0, 0 ), q( p );
                        ( axis == 0 ? q.x : axis == 1 ? q.y : q.z ) += d;
                        const bool same = s < 1;
                        require( ( p == q ) == same && ( q == p ) == same && ( p != q ) == !same && ( q != p ) == !same, "comparison of nearly equal points" );
                        require( pvmath::isEqual<T>( d, 0 ) == same && pvmath::isEqual<T>( 0, d ) == same, "isEqual" );
                        require( pvmath::isEqual<T>( d, 0, 10 ) == ( s < 10 ) && pvmath::isEqual<T>( 0, d, 10 ) == ( s < 10 ), "isEqual with a multiplier" );
                        ctx().calls += 8;
                    }
        }
    }

    void angles()
    {
        if ( !next() )
            return;
        label( "angles" );
        require( pvmath::isEqual( 3, 3 ) && !pvmath::isEqual( 3, 4 ) && !pvmath::isEqual( 3u, 4u, 5u ) && pvmath::isEqual( 3u, 3u, 5u ), "isEqual of integers" );
        for ( int degree = -1440; degree <= 1440; ++degree ) {
            const double radian = degree * 3.14159265358979323846 / 180;
            require( nearly( pvmath::toRadians( degree ), radian, 1 ) && nearly( pvmath::toDegrees( radian ), degree, 1 ), "conversion of angles" );
            ctx().calls += 2;
        }
        require( nearly( pvmath::pi, 3.14159265358979323846, 0 ), "pi" );
    }

    // ---- lines ----
    struct IntLine
    {
        int x, y, dx, dy; // through (x, y) in direction (dx, dy), which is not zero
    };

    // checks of one line; base and factor place the grid anywhere
    template <typename T>
    void oneLine( const LineBase2D<T> & line, const IntLine & l, int factor, int baseX, int baseY, int range, double scale )
    {
        const double square = double( l.dx ) * l.dx + double( l.dy ) * l.dy, length = std::sqrt( square );
        const auto angle = line.angle();
        const double wanted = std::atan2( double( l.dy ), double( l.dx ) ), d = std::fabs( double( angle ) - wanted );
        require( d < 1e-5 || std::fabs( d - 2 * pvmath::pi ) < 1e-5, "angle" );
        require( line.position() == PointBase2D<T>( T( l.x ), T( l.y ) ), "position" );
        for ( int i = -range; i <= range; ++i )
            for ( int j = -range; j <= range; ++j ) {
                const int px = baseX + factor * i, py = baseY + factor * j;
                const PointBase2D<T> p{ T( px ), T( py ) };
                const double cross = double( px - l.x ) * l.dy - double( py - l.y ) * l.dx, dot = double( px - l.x ) * l.dx + double( py - l.y ) * l.dy;
                const double projectionX = l.x + dot * l.dx / square, projectionY = l.y + dot * l.dy / square;
                ctx().calls += 3;
                const T distance = line.distance( p );
                if ( !nearly( distance, std::fabs( cross ) / length, scale ) || distance < 0 )
                    fail( "distance of %d,%d is %g, expected %g", px, py, double( distance ), std::fabs( cross ) / length );
                const PointBase2D<T> q = line.projection( p ), o = line.opposite( p );
                if ( !nearly( q.x, projectionX, scale ) || !nearly( q.y, projectionY, scale ) )
                    fail( "projection of %d,%d is %g,%g, expected %g,%g", px, py, double( q.x ), double( q.y ), projectionX, projectionY );
                if ( !nearly( o.x, 2 * projectionX - px, scale ) || !nearly( o.y, 2 * projectionY - py, scale ) )
                    fail( "opposite point of %d,%d is %g,%g, expected %g,%g", px, py, double( o.x ), double( o.y ), 2 * projectionX - px, 2 * projectionY - py );
                ctx().compared += 3;
            }
    }

    template <typename T>
    void twoLines( const LineBase2D<T> & a, const IntLine & l, const LineBase2D<T> & b, const IntLine & m, double scale )
    {
        const int64_t cross = int64_t( l.dx ) * m.dy - int64_t( l.dy ) * m.dx;
        const bool parallel = cross == 0;
        const bool same = parallel && int64_t( m.x - l.x ) * l.dy - int64_t( m.y - l.y ) * l.dx == 0;
        ctx().calls += 6;
        require( a.isParallel( b ) == parallel && a.isIntersect( b ) == !parallel, "isParallel" );
        require( ( a == b ) == same, same ? "the same line is not equal" : "different lines are equal" );
        PointBase2D<T> p( 77, 78 );
        const bool found = a.intersection( b, p );
        require( found == !parallel, "intersection of parallel lines or none of others" );
        if ( !found ) {
            require( p == PointBase2D<T>( 77, 78 ), "a missing intersection changed the point" );
            return;
        }
        // position + s * direction, s = ((m - l) x dm) / (dl x dm)
        const double s = ( double( m.x - l.x ) * m.dy - double( m.y - l.y ) * m.dx ) / double( cross );
        const double x = l.x + s * l.dx, y = l.y + s * l.dy;
        ++ctx().compared;
        if ( !nearly( p.x, x, scale ) || !nearly( p.y, y, scale ) )
            fail( "intersection is %.9g,%.9g, expected %.9g,%.9g", double( p.x ), double( p.y ), x, y );
    }

    template <typename T>
    void lines( int range, int factor, int baseX, int baseY )
    {
        const double scale = std::max( { std::abs( baseX ), std::abs( baseY ), factor } ) + 4.0;
        std::vector<IntLine> all;
        const int side = 2 * range + 1;
        for ( int i = 0; i < side * side; ++i )
            for ( int j = 0; j < side * side; ++j ) {
                IntLine l;
                l.x = baseX + factor * ( i % side - range );
                l.y = baseY + factor * ( i / side - range );
                l.dx = baseX + factor * ( j % side - range ) - l.x;
                l.dy = baseY + factor * ( j / side - range ) - l.y;
                if ( i == j ) { // no direction: horizontal by convention
                    l.dx = 1;
                    l.dy = 0;
                }
                all.push_back( l );
            }
        auto build = [&]( size_t n ) {
            const IntLine & l = all[n];
            const int i = int( n ) / ( side * side ), j = int( n ) % ( side * side );
            const PointBase2D<T> start{ T( l.x ), T( l.y ) };
            return i == j ? LineBase2D<T>( start, start ) : LineBase2D<T>( start, PointBase2D<T>( T( l.x + l.dx ), T( l.y + l.dy ) ) );
        };
        std::vector<LineBase2D<T>> built;
        for ( size_t n = 0; n < all.size(); ++n )
            built.push_back( build( n ) );
        for ( size_t n = 0; n < all.size(); ++n ) {
            if ( !next() )
                continue;
            const IntLine & l = all[n];
            label( "%s line through %d,%d in direction %d,%d", typeName<T>(), l.x, l.y, l.dx, l.dy );
            const LineBase2D<T> a = build( n );
            oneLine( a, l, factor, baseX, baseY, range + 1, scale );
            for ( size_t k = 0; k < all.size(); ++k ) {
                phase( "and line through %d,%d in direction %d,%d", all[k].x, all[k].y, all[k].dx, all[k].dy );
                twoLines( a, l, built[k], all[k], scale * 40 );
            }
            // moved lines
            for ( int i = -1; i <= 1; ++i )
                for ( int j = -1; j <= 1; ++j ) {
                    phase( "moved by %d,%d", i * factor, j * factor );
                    const PointBase2D<T> offset{ T( i * factor ), T( j * factor ) };
                    IntLine m( l );
                    m.x += i * factor;
                    m.y += j * factor;
                    const LineBase2D<T> b = a + offset;
                    oneLine( b, m, factor, baseX, baseY, 1, scale * 4 );
                    LineBase2D<T> c( a );
                    require( &( c += offset ) == &c, "+= returns something else" );
                    oneLine( c, m, factor, baseX, baseY, 1, scale * 4 );
                    twoLines( a, l, c, m, scale * 40 );
                }
        }
    }

    template <typename T>
    void linesByAngle()
    {
        for ( int degree = -360; degree <= 360; degree += 15 ) {
            if ( !next() )
                continue;
            label( "%s line by angle %d", typeName<T>(), degree );
            const double radian = degree * 3.14159265358979323846 / 180, c = std::cos( radian ), s = std::sin( radian );
            for ( int x = -2; x <= 2; ++x )
                for ( int y = -2; y <= 2; ++y ) {
                    const LineBase2D<T> line{ PointBase2D<T>( T( x ), T( y ) ), T( radian ) };
                    ctx().calls += 3;
                    require( nearly( std::cos( line.angle() ), c, 1 ) && nearly( std::sin( line.angle() ), s, 1 ), "angle" );
                    for ( int px = -2; px <= 2; ++px )
                        for ( int py = -2; py <= 2; ++py ) {
                            const PointBase2D<T> p{ T( px ), T( py ) };
                            const double dot = ( px - x ) * c + ( py - y ) * s;
                            const PointBase2D<T> q = line.projection( p );
                            require( nearly( line.distance( p ), std::fabs( ( px - x ) * s - ( py - y ) * c ), 4 ) && nearly( q.x, x + dot * c, 4 ) && nearly( q.y, y + dot * s, 4 ),
                                     "distance or projection" );
                        }
                    for ( int other = -360; other <= 360; other += 15 ) {
                        const LineBase2D<T> second{ PointBase2D<T>( T( y ), T( x + 1 ) ), T( other * 3.14159265358979323846 / 180 ) };
                        const bool parallel = ( degree - other ) % 180 == 0;
                        PointBase2D<T> p;
                        require( line.isParallel( second ) == parallel && line.isIntersect( second ) == !parallel && line.intersection( second, p ) == !parallel, "parallelism" );
                        if ( !parallel )
                            require( nearly( line.distance( p ), 0, 100 ) && nearly( second.distance( p ), 0, 100 ), "the intersection is not on both lines" );
                    }
                }
        }
    }

    template <typename T, template <typename, typename...> class Container>
    void fitOne( const std::vector<std::pair<int, int>> & p )
    {
        Container<PointBase2D<T>> container;
        int64_t sx = 0, sy = 0, sxx = 0, syy = 0, sxy = 0;
        const int64_t n = int64_t( p.size() );
        for ( auto & q : p ) {
            container.push_back( PointBase2D<T>( T( q.first ), T( q.second ) ) );
            sx += q.first;
            sy += q.second;
            sxx += q.first * q.first;
            syy += q.second * q.second;
            sxy += q.first * q.second;
        }
        const int64_t vx = n * sxx - sx * sx, vy = n * syy - sy * sy, cov = n * sxy - sx * sy; // n^2 times the variances
        ++ctx().calls;
        const LineBase2D<T> line = LineBase2D<T>::bestFittingLine( container );
        const double x = double( sx ) / double( n ), y = double( sy ) / double( n );
        if ( !nearly( line.position().x, x, 10 ) || !nearly( line.position().y, y, 10 ) )
            fail( "fitted line goes through %g,%g, expected %g,%g", double( line.position().x ), double( line.position().y ), x, y );
        ++ctx().compared;
        // regression over the coordinate with the bigger variance
        auto along = [&]( double dx, double dy ) {
            const double length = std::sqrt( dx * dx + dy * dy );
            const double a = double( line.angle() );
            return std::fabs( std::cos( a ) * dy - std::sin( a ) * dx ) <= ( sizeof( T ) == 8 ? 1e-7 : 1e-3 ) * length;
        };
        if ( vx == 0 && vy == 0 )
            return; // any line through the point
        const bool ok = ( vx >= vy && along( double( vx ), double( cov ) ) ) || ( vy >= vx && along( double( cov ), double( vy ) ) );
        if ( !ok )
            fail( "angle of the fitted line is %g (n^2 variances %lld %lld, covariance %lld)", double( line.angle() ), (long long)vx, (long long)vy, (long long)cov );
    }

    void fits()
    {
        const int offsets[] = { 0, 100 };
        for ( int offset : offsets )
            for ( int side = 2; side <= 4; ++side )
                for ( uint32_t count = 2; count <= ( ctx().thorough ? 5u : 4u ); ++count ) {
                    uint64_t total = 1;
                    for ( uint32_t i = 0; i < count; ++i )
                        total *= uint64_t( side * side );
                    for ( uint64_t block = 0; block * 2048 < total; ++block ) {
                        if ( !next() )
                            continue;
                        for ( uint64_t n = block * 2048; n < total && n < block * 2048 + 2048; ++n ) {
                            std::vector<std::pair<int, int>> p;
                            uint64_t c = n;
                            for ( uint32_t i = 0; i < count; ++i, c /= uint64_t( side * side ) ) {
                                const int cell = int( c % uint64_t( side * side ) );
                                p.push_back( std::make_pair( offset + cell % side - 1, cell / side * 2 - 1 ) );
                            }
                            label( "fit of %u points, grid %d, number %llu, offset %d", count, side, (unsigned long long)n, offset );
                            fitOne<double, std::vector>( p );
                            if ( !offset ) {
                                fitOne<double, std::list>( p );
                                fitOne<float, std::vector>( p );
                            }
                        }
                    }
                }
    }

    // ---- linear systems ----
    int64_t determinant( std::vector<int64_t> m, size_t n )
    {
        // fraction free elimination
        int64_t sign = 1, previous = 1;
        for ( size_t k = 0; k + 1 < n; ++k ) {
            size_t row = k;
            while ( row < n && m[row * n + k] == 0 )
                ++row;
            if ( row == n )
                return 0;
            if ( row != k ) {
                for ( size_t j = 0; j < n; ++j )
                    std::swap( m[row * n + j], m[k * n + j] );
                sign = -sign;
            }
            for ( size_t i = k + 1; i < n; ++i )
                for ( size_t j = k + 1; j < n; ++j )
                    m[i * n + j] = ( m[i * n + j] * m[k * n + k] - m[i * n + k] * m[k * n + j] ) / previous;
            previous = m[k * n + k];
        }
        return sign * m[n * n - 1];
    }

    // coefficients and terms are multiplied by a power of 2, which changes no digit of the result
    void solve( const std::vector<int64_t> & m, const std::vector<int64_t> & terms, size_t n, size_t rootsSize, double scale = 1 )
    {
        const int64_t d = determinant( m, n );
        if ( d == 0 && scale > 1 )
            return; // rounding errors of big coefficients are not distinguishable from small coefficients
        std::vector<double> matrix( m.begin(), m.end() ), free( terms.begin(), terms.end() ), roots( rootsSize, 5 );
        for ( double & v : matrix )
            v *= scale;
        for ( double & v : free )
            v *= scale;
        const bool no = refused( [&] { pvmath::getMatrixRoots( matrix, free, roots ); } );
        ++ctx().compared;
        auto show = [&] {
            std::string s;
            for ( size_t i = 0; i < n * n; ++i )
                s += ( i % n ? " " : i ? "; " : "" ) + std::to_string( m[i] );
            s += " |";
            for ( int64_t t : terms )
                s += " " + std::to_string( t );
            return s;
        };
        if ( no != ( d == 0 ) )
            fail( "system %s times %g with determinant %lld was %s", show().c_str(), scale, (long long)d, no ? "refused" : "accepted" );
        if ( no ) {
            if ( roots != std::vector<double>( rootsSize, 5 ) )
                fail( "a refused system changed the roots" );
            return;
        }
        if ( roots.size() < n )
            fail( "%zu roots for %zu unknowns", roots.size(), n );
        for ( size_t i = 0; i < n; ++i ) {
            std::vector<int64_t> replaced( m );
            for ( size_t r = 0; r < n; ++r )
                replaced[r * n + i] = terms[r];
            const double wanted = double( determinant( replaced, n ) ) / double( d );
            if ( !( std::fabs( roots[i] - wanted ) <= 1e-9 * ( 1 + std::fabs( wanted ) ) ) )
                fail( "root %zu of %s times %g is %.12g, expected %.12g", i, show().c_str(), scale, roots[i], wanted );
        }
    }

    void systems()
    {
        auto enumerate = [&]( size_t n, const std::vector<int64_t> & values, const std::vector<std::vector<int64_t>> & terms ) {
            uint64_t total = 1;
            for ( size_t i = 0; i < n * n; ++i )
                total *= values.size();
            for ( uint64_t block = 0; block * 1024 < total; ++block ) {
                if ( !next() )
                    continue;
                label( "all %zux%zu systems over %zu values, block %llu", n, n, values.size(), (unsigned long long)block );
                for ( uint64_t k = block * 1024; k < total && k < block * 1024 + 1024; ++k ) {
                    std::vector<int64_t> m( n * n );
                    uint64_t c = k;
                    for ( auto & v : m ) {
                        v = values[size_t( c % values.size() )];
                        c /= values.size();
                    }
                    for ( size_t t = 0; t < terms.size(); ++t )
                        solve( m, terms[t], n, t % 2 ? n : ( t % 4 ) * n );
                    solve( m, terms.back(), n, n, std::ldexp( 1.0, -20 ) );
                    solve( m, terms.back(), n, n, std::ldexp( 1.0, 20 ) );
                }
            }
        };
        enumerate( 2, { -3, -2, -1, 0, 1, 2, 3, 50 }, { { 1, 0 }, { 0, 1 }, { 0, 0 }, { 7, -3 }, { -1, 5 } } );
        enumerate( 3, ctx().thorough ? std::vector<int64_t>{ -1, 0, 1, 2, 5 } : std::vector<int64_t>{ -1, 0, 1, 3 }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 2, -3, 5 } } );
        enumerate( 4, { 0, 1 }, { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 }, { 2, 3, -5, 7 } } );
        if ( ctx().thorough )
            enumerate( 4, { -1, 0, 2 }, { { 2, 3, -5, 7 } } );
        // permutations with pivots of different size
        for ( size_t n = 2; n <= 6; ++n ) {
            if ( !next() )
                continue;
            label( "permuted diagonal systems of %zu unknowns", n );
            std::vector<size_t> p( n );
            for ( size_t i = 0; i < n; ++i )
                p[i] = i;
            do {
                for ( int64_t filler = 0; filler <= 1; ++filler ) {
                    std::vector<int64_t> m( n * n, filler ), t( n );
                    for ( size_t i = 0; i < n; ++i ) {
                        m[i * n + p[i]] = int64_t( 3 + 2 * ( i * 5 % n ) );
                        t[i] = int64_t( i * i ) - 3;
                    }
                    solve( m, t, n, n );
                }
            } while ( std::next_permutation( p.begin(), p.end() ) );
        }
        for ( size_t m = 0; m <= 10; ++m )
            for ( size_t t = 0; t <= 4; ++t ) {
                if ( !next() )
                    continue;
                label( "matrix of %zu and %zu terms", m, t );
                std::vector<double> matrix( m, 0 ), terms( t, 1 ), roots( 1, 5 );
                for ( size_t i = 0; i < t && i * t + i < m; ++i )
                    matrix[i * t + i] = 2;
                const bool valid = t >= 2 && m == t * t;
                if ( refused( [&] { pvmath::getMatrixRoots( matrix, terms, roots ); } ) == valid )
                    fail( "sizes were %s", valid ? "refused" : "accepted" );
                ++ctx().compared;
                if ( !valid && roots != std::vector<double>( 1, 5 ) )
                    fail( "roots changed" );
            }
    }

    // ---- Haar transform ----
    template <typename T>
    void haar( size_t w, size_t h )
    {
        const size_t n = w * h;
        const double k = std::sqrt( 0.5 );
        auto compare = [&]( const std::vector<T> & a, const std::vector<double> & b, double scale, const char * what ) {
            ++ctx().compared;
            if ( a.size() != b.size() )
                fail( "%s: %zu values", what, a.size() );
            for ( size_t i = 0; i < b.size(); ++i )
                if ( !nearly( a[i], b[i], scale ) )
                    fail( "%s: value %zu,%zu is %.15g, expected %.15g", what, i % w, i / w, double( a[i] ), b[i] );
        };
        auto check = [&]( const std::vector<double> & values, double scale ) {
            std::vector<double> rows( n ), direct( n ), inverse( n );
            for ( size_t y = 0; y < h; ++y )
                for ( size_t x = 0; x < w / 2; ++x ) {
                    rows[y * w + x] = k * ( values[y * w + 2 * x] + values[y * w + 2 * x + 1] );
                    rows[y * w + x + w / 2] = k * ( values[y * w + 2 * x + 1] - values[y * w + 2 * x] );
                }
            for ( size_t y = 0; y < h / 2; ++y )
                for ( size_t x = 0; x < w; ++x ) {
                    direct[y * w + x] = k * ( rows[2 * y * w + x] + rows[( 2 * y + 1 ) * w + x] );
                    direct[( y + h / 2 ) * w + x] = k * ( rows[( 2 * y + 1 ) * w + x] - rows[2 * y * w + x] );
                }
            for ( size_t y = 0; y < h; ++y )
                for ( size_t x = 0; x < w / 2; ++x ) {
                    rows[y * w + 2 * x] = k * ( values[y * w + x] - values[y * w + x + w / 2] );
                    rows[y * w + 2 * x + 1] = k * ( values[y * w + x] + values[y * w + x + w / 2] );
                }
            for ( size_t y = 0; y < h / 2; ++y )
                for ( size_t x = 0; x < w; ++x ) {
                    inverse[2 * y * w + x] = k * ( rows[y * w + x] - rows[( y + h / 2 ) * w + x] );
                    inverse[( 2 * y + 1 ) * w + x] = k * ( rows[y * w + x] + rows[( y + h / 2 ) * w + x] );
                }
            const std::vector<T> in( values.begin(), values.end() );
            std::vector<T> out( n, T( 99 ) ), back( n, T( 99 ) );
            ctx().calls += 5;
            Image_Function::HaarDirectTransform( in, out, w, h );
            compare( out, direct, scale, "direct transform" );
            Image_Function::HaarInverseTransform( out, back, w, h );
            compare( back, values, scale, "direct and inverse transform" );
            Image_Function::HaarInverseTransform( in, out, w, h );
            compare( out, inverse, scale, "inverse transform" );
            Image_Function::HaarDirectTransform( out, back, w, h );
            compare( back, values, scale, "inverse and direct transform" );
            back = in;
            Image_Function::HaarDirectTransform( back, back, w, h );
            compare( back, direct, scale, "in place direct transform" );
        };
        if ( next() ) {
            label( "Haar transform of %zux%zu %s", w, h, typeName<T>() );
            for ( size_t i = 0; i < n; ++i ) {
                std::vector<double> a( n, 0 );
                a[i] = 1;
                check( a, 1 );
            }
            std::vector<double> a( n );
            for ( size_t i = 0; i < n; ++i )
                a[i] = double( i * 97 % 255 ) - 100;
            check( a, 255 );
        }
    }

    template <typename T>
    void haarRefusals()
    {
        for ( size_t w = 0; w <= 5; ++w )
            for ( size_t h = 0; h <= 5; ++h ) {
                if ( !next() )
                    continue;
                label( "Haar transform of %zux%zu %s: sizes", w, h, typeName<T>() );
                for ( size_t in = 0; in <= 26; ++in )
                    for ( size_t out = 0; out <= 26; ++out ) {
                        const std::vector<T> a( in, T( 3 ) );
                        std::vector<T> b( out, T( 7 ) );
                        const bool valid = in == w * h && out == in && in && w % 2 == 0 && h % 2 == 0;
                        for ( int inverse = 0; inverse < 2; ++inverse ) {
                            const bool no = refused( [&] { inverse ? Image_Function::HaarInverseTransform( a, b, w, h ) : Image_Function::HaarDirectTransform( a, b, w, h ); } );
                            ++ctx().compared;
                            if ( no == valid )
                                fail( "%zu inputs and %zu outputs were %s", in, out, no ? "refused" : "accepted" );
                            if ( !valid && b != std::vector<T>( out, T( 7 ) ) )
                                fail( "a refused transform changed the output" );
                        }
                    }
            }
    }

    void all()
    {
        const bool thorough = ctx().thorough;
        points<double>( "double" );
        points<float>( "float" );
        points<int>( "int" );
        angles();
        lines<double>( 2, 1, 0, 0 );
        lines<float>( 1, 1, 0, 0 );
        lines<double>( 1, 1, 1000, -300 );
        lines<double>( 1, 4000, 20000, 7 );
        lines<double>( thorough ? 2 : 1, 3, -5, 40 );
        if ( thorough )
            lines<double>( 3, 1, 0, 0 );
        linesByAngle<double>();
        linesByAngle<float>();
        fits();
        systems();
        const size_t limit = thorough ? 16 : 10;
        for ( size_t w = 2; w <= limit; w += 2 )
            for ( size_t h = 2; h <= limit; h += 2 ) {
                haar<double>( w, h );
                haar<float>( w, h );
            }
        haar<double>( 64, 2 );
        haar<double>( 2, 64 );
        haarRefusals<double>();
        haarRefusals<float>();
    }
}

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    all();
    vp::finish();
    return 0;
}
