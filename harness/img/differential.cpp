// C04, C14, C15: comparison of implementations and forms with each other.
#include "common.h"

void simdEqual()
{
    const uint32_t top = ctx().thorough ? 200 : 131;
    for ( const Op & op : OPS )
        for ( const Impl & impl : op.impls ) {
            if ( impl.bk != SIMD )
                continue;
            const Impl & plain = *plainOf( op, impl );
            const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
            for ( const auto & cc : colourSets( op ) )
                for ( uint32_t w = 1; w <= top; ++w ) {
                    if ( ( full || impl.form == ROI_RET ) && op.outs && w % 13 != 0 && w != 64 && w != 32 && !ctx().thorough )
                        continue;
                    if ( !next() )
                        continue;
                    label( "%s::%s %s width %u channels %u with every instruction set", name( impl.bk ), op.name.c_str(), name( impl.form ), w, cc[0] );
                    for ( uint32_t h = 1; h <= 3; ++h )
                        for ( uint32_t off = 0; off < ( full ? 1u : ctx().thorough ? 4u : 2u ); ++off )
                            for ( int padded = 0; padded < 2; ++padded ) {
                                std::vector<Dim> d;
                                for ( int k = 0; k < operandCount( op ); ++k )
                                    d.push_back( Dim{ full ? w : w + off + ( padded ? off * ( k + 1 ) : 0 ), full ? h : h + off, cc[k], uint8_t( padded ? ( k % 2 ? 8 : 32 ) : 1 ) } );
                                Operands o( op, impl, d, contentFor( op, int( w + h ) ) );
                                const Restore restore( o.args );
                                const auto vars = op.variants( w, h, cc[0] );
                                for ( size_t vi = 0; vi < vars.size(); ++vi ) {
                                    if ( vars.size() > 4 && ( vi + w + h + off ) % 4 != 0 )
                                        continue;
                                    Args a = o.args;
                                    a.w = w;
                                    a.h = h;
                                    setParams( a, vars[vi] );
                                    prepare( op, impl, a );
                                    for ( size_t k = 0; k < a.im.size() && !full; ++k ) {
                                        a.x[k] = off ? ( k % 2 ? off : off - 1 + ( padded ? 1 : 0 ) ) : 0;
                                        a.y[k] = off ? uint32_t( k % 2 ) : 0;
                                    }
                                    phase( "%.180s", describe( op, plain, a ).c_str() );
                                    const Result expected = call( plain, a );
                                    restore();
                                    for ( SimdMode m : availableModes() ) {
                                        setMode( m );
                                        compareImpls( op, impl, plain, a, expected, restore, name( m ) );
                                    }
                                    setMode( ALL );
                                }
                            }
                }
            // invalid arguments
            decisionCases( op, impl, 70, 3, "all instruction sets ", [&]( const Op &, const Impl &, Args & a ) {
                const Restore restore( a );
                phase( "%.180s", describe( op, plain, a ).c_str() );
                const Result expected = call( plain, a );
                restore();
                for ( SimdMode m : availableModes() ) {
                    setMode( m );
                    compareImpls( op, impl, plain, a, expected, restore, name( m ) );
                }
                setMode( ALL );
            } );
        }
    // bit depth conversion
    for ( uint8_t cc : { 1, 3, 4 } )
        for ( uint32_t w = 1; w <= top; ++w ) {
            if ( !next() )
                continue;
            label( "bit depth conversions width %u channels %u with every instruction set", w, cc );
            for ( uint32_t h = 1; h <= 3; ++h )
                for ( uint32_t off = 0; off < 3; ++off )
                    for ( int al : { 1, 16 } )
                        for ( SimdMode m : availableModes() ) {
                            Image i8( w + off, h + off, cc, uint8_t( al ) );
                            fillImage( i8, 1, HASH );
                            Image16Bit i16 = make16( w + off, h + off, cc, uint8_t( al ) ), a16( i16 ), b16( i16 );
                            Image a8( i8 ), b8( i8 );
                            phase( "%s height %u offset %u aligned %d", name( m ), h, off, al );
                            setMode( m );
                            BITS[1].to16( i8, off, 0, a16, 0, off, w, h );
                            BITS[0].to16( i8, off, 0, b16, 0, off, w, h );
                            expect( sameOutside( a16, b16, 0, 0, 0, 0 ), "ConvertTo16Bit differs" );
                            BITS[1].to8( i16, 0, off, a8, off, 0, w, h );
                            BITS[0].to8( i16, 0, off, b8, off, 0, w, h );
                            expect( sameOutside( a8, b8, 0, 0, 0, 0 ), "ConvertTo8Bit differs" );
                            ctx().calls += 4;
                            setMode( ALL );
                        }
        }
    // switching instruction sets between calls: all sequences of three modes
    if ( next() ) {
        label( "switching of instruction sets" );
        for ( bool simdOn : { true, false } )
            for ( int mask = 0; mask < 16; ++mask )
                for ( int again = 0; again < 16; ++again ) {
                    simd::EnableSimd( simdOn );
                    simd::EnableAvx512( mask & 1 );
                    simd::EnableAvx( mask & 2 );
                    simd::EnableSse( mask & 4 );
                    simd::EnableNeon( mask & 8 );
                    simd::EnableSse( again & 4 );
                    simd::EnableNeon( again & 8 );
                    simd::EnableAvx512( again & 1 );
                    simd::EnableAvx( again & 2 );
                    phase( "initially %d, %d then %d", simdOn, mask, again );
                    const simd::SIMDType t = simd::actualSimdType();
                    const auto has = []( SimdMode m ) { return std::find( availableModes().begin(), availableModes().end(), m ) != availableModes().end(); };
                    ++ctx().calls;
                    expect( t != simd::avx512_function || ( ( again & 1 ) && has( AVX512 ) ), "AVX-512 is used although it is not enabled" );
                    expect( t != simd::avx_function || ( ( again & 2 ) && has( AVX ) ), "AVX is used although it is not enabled" );
                    expect( t != simd::sse_function || ( ( again & 4 ) && has( SSE ) ), "SSE is used although it is not enabled" );
                    expect( t != simd::neon_function || ( ( again & 8 ) && has( NEON ) ), "NEON is used although it is not enabled" );
                    for ( const Op & op : OPS )
                        for ( const Impl & impl : op.impls )
                            if ( impl.bk == SIMD && impl.form == ( op.outs || op.name == "Accumulate" ? FULL_OUT : FULL_RET ) ) {
                                const auto sets = colourSets( op );
                                std::vector<Dim> d;
                                for ( int k = 0; k < operandCount( op ); ++k )
                                    d.push_back( Dim{ 70, 2, sets[0][k], 1 } );
                                Operands o( op, impl, d, HASH );
                                const Restore restore( o.args );
                                Args a = o.args;
                                a.w = 70;
                                a.h = 2;
                                const auto vars = op.variants( 70, 2, sets[0][0] );
                                if ( !vars.empty() )
                                    setParams( a, vars[0] );
                                const Result expected = call( *plainOf( op, impl ), a );
                                restore();
                                compareImpls( op, impl, *plainOf( op, impl ), a, expected, restore, "switched" );
                            }
                }
        setMode( ALL );
    }
}

void poolEqual()
{
    const std::vector<uint32_t> sizes = ctx().thorough ? std::vector<uint32_t>{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33 } : std::vector<uint32_t>{ 1, 2, 3, 4, 5, 8, 7, 9, 16 };
    const uint32_t top = ctx().thorough ? 17 : 9;
    for ( uint32_t threads : sizes ) {
        bool resized = false;
        const auto ensure = [&]() {
            if ( !resized )
                ThreadPoolMonoid::instance().resize( threads );
            resized = true;
        };
        for ( const Op & op : OPS )
            for ( const Impl & impl : op.impls ) {
                if ( impl.bk != POOL )
                    continue;
                const Impl & plain = *plainOf( op, impl );
                const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
                for ( const auto & cc : colourSets( op ) ) {
                    for ( uint32_t w = 1; w <= top; ++w ) {
                        if ( !ctx().thorough && ( threads == 7 || threads > 8 ) )
                            break;
                        if ( ( full || ( impl.form == ROI_RET && op.outs ) ) && w % 3 != 1 && !ctx().thorough )
                            continue;
                        if ( !next() )
                            continue;
                        ensure();
                        label( "%u threads %s::%s %s width %u channels %u", threads, name( impl.bk ), op.name.c_str(), name( impl.form ), w, cc[0] );
                        for ( uint32_t h = 1; h <= top; ++h )
                            for ( uint32_t off = 0; off < ( full ? 1u : 2u ); ++off ) {
                                const auto vars = op.variants( w, h, cc[0] );
                                for ( size_t vi = 0; vi < vars.size(); ++vi ) {
                                    if ( vars.size() > 4 && ( vi + w + h * 3 + off ) % 6 != 0 )
                                        continue;
                                    uint32_t ow, oh;
                                    op.outSize( vars[vi], w, h, ow, oh );
                                    std::vector<Dim> d;
                                    for ( int k = 0; k < operandCount( op ); ++k ) {
                                        const bool isOut = !op.inplace && op.outs && k >= firstOut( op );
                                        d.push_back( Dim{ ( isOut ? ow : w ) + 2 * off, ( isOut ? oh : h ) + 2 * off, cc[k], uint8_t( ( w + k ) % 2 ? 8 : 1 ) } );
                                    }
                                    Operands o( op, impl, d, contentFor( op, int( w + h ) ) );
                                    const Restore restore( o.args );
                                    Args a = o.args;
                                    a.w = w;
                                    a.h = h;
                                    setParams( a, vars[vi] );
                                    prepare( op, impl, a );
                                    for ( size_t k = 0; k < a.im.size(); ++k ) {
                                        a.x[k] = off * uint32_t( 1 + k % 2 );
                                        a.y[k] = off * uint32_t( 2 - k % 2 );
                                    }
                                    phase( "%.180s", describe( op, plain, a ).c_str() );
                                    const Result expected = call( plain, a );
                                    restore();
                                    compareImpls( op, impl, plain, a, expected, restore, "" );
                                }
                            }
                    }
                    // wide and high regions, where the plain functions take other paths, and such which cannot be split evenly
                    struct Shape
                    {
                        uint32_t w, h, off;
                    };
                    const Shape shapes[] = { { 133, 5, 0 }, { 133, 5, 1 }, { 3, 67, 0 }, { 3, 67, 1 }, { 16 * threads + threads - 1, 1, 0 }, { 32 * threads + threads / 2, 2, 1 }, { 2, 3 * threads - 1, 0 }, { 1, 2 * threads - 1, 1 }, { 16 * threads - 1, 1, 1 } };
                    for ( const Shape & shape : shapes ) {
                        if ( full && shape.off )
                            continue;
                        if ( !next() )
                            continue;
                        ensure();
                        const uint32_t w = shape.w, h = shape.h, off = shape.off;
                        label( "%u threads %s::%s %s region %ux%u channels %u", threads, name( impl.bk ), op.name.c_str(), name( impl.form ), w, h, cc[0] );
                        for ( const Args & v : op.variants( w, h, cc[0] ) ) {
                            uint32_t ow, oh;
                            op.outSize( v, w, h, ow, oh );
                            std::vector<Dim> d;
                            for ( int k = 0; k < operandCount( op ); ++k ) {
                                const bool isOut = !op.inplace && op.outs && k >= firstOut( op );
                                d.push_back( Dim{ ( isOut ? ow : w ) + off, ( isOut ? oh : h ) + off, cc[k], 1 } );
                            }
                            Operands o( op, impl, d, contentFor( op, int( &shape - shapes ) ) );
                            const Restore restore( o.args );
                            Args a = o.args;
                            a.w = w;
                            a.h = h;
                            setParams( a, v );
                            prepare( op, impl, a );
                            for ( size_t k = 0; k < a.im.size(); ++k )
                                a.x[k] = a.y[k] = off;
                            phase( "%.180s", describe( op, plain, a ).c_str() );
                            const Result expected = call( plain, a );
                            restore();
                            compareImpls( op, impl, plain, a, expected, restore, "" );
                        }
                    }
                }
                if ( threads == 1 || threads == 3 )
                    decisionCases( op, impl, 5, 4, "", [&]( const Op &, const Impl &, Args & a ) {
                        ensure();
                        const Restore restore( a );
                        phase( "%.180s", describe( op, plain, a ).c_str() );
                        const Result expected = call( plain, a );
                        restore();
                        compareImpls( op, impl, plain, a, expected, restore, "" );
                    } );
            }
    }
    if ( ctx().only < 0 || next() ) {
        ThreadPoolMonoid::instance().resize( 2 );
        // no threads at all: refused or computed, but not hanging
    }
}

// all forms and implementations give the same as the region form of the plain implementation
void agreement()
{
    const uint32_t top = ctx().thorough ? 6 : 4;
    for ( const Op & op : OPS ) {
        const Impl * base = op.find( CPU, ROI_OUT ) ? op.find( CPU, ROI_OUT ) : op.find( CPU, ROI_RET );
        for ( const Impl & impl : op.impls ) {
            if ( &impl == base )
                continue;
            const bool ret = impl.form == ROI_RET || impl.form == FULL_RET;
            const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
            const bool image = op.outs > 0;
            const bool decisionsOnly = op.name == "Rotate" && ret; // has one centre only: compared with equal centres below
            (void)decisionsOnly;
            // one call in both forms with the same data; inputs of equal shape
            const auto compare = [&]( const std::vector<Dim> & dims, uint32_t w, uint32_t h, const Args & v, uint32_t off, Content content, bool badParameters ) {
                Operands of( op, *base, dims, content ), og( op, impl, dims, content );
                Args f = of.args, g = og.args;
                for ( Args * a : { &f, &g } ) {
                    a->w = w;
                    a->h = h;
                    setParams( *a, v );
                    prepare( op, impl, *a );
                    for ( size_t k = 0; k < a->im.size(); ++k ) {
                        a->x[k] = off * uint32_t( 1 + k % 2 );
                        a->y[k] = off;
                    }
                }
                phase( "%.190s", describe( op, impl, g ).c_str() );
                const Result rf = call( *base, f ), rg = call( impl, g );
                ++ctx().compared;
                if ( rf.threw != rg.threw )
                    fail( rg.threw ? "this form refuses what the plain region form accepts" : "this form accepts what the plain region form refuses" );
                if ( rf.threw )
                    return;
                if ( badParameters )
                    return;
                if ( rf.vec != rg.vec || rf.num != rg.num )
                    fail( "the result differs from that of the plain region form" );
                if ( !image )
                    return;
                uint32_t ow, oh;
                op.outSize( f, w, h, ow, oh );
                for ( int k = 0; k < ( ret ? 1 : op.outs ); ++k ) {
                    const int i = firstOut( op ) + k;
                    const Snap &p = rf.ops[i], &q = ret ? rg.ret : rg.ops[i];
                    if ( ret && ( q.w != ow || q.h != oh || q.cc != p.cc ) )
                        fail( "created image is %ux%ux%u, expected %ux%ux%u", q.w, q.h, q.cc, ow, oh, p.cc );
                    const uint32_t qx = ret ? 0 : g.x[i], qy = ret ? 0 : g.y[i];
                    for ( uint32_t y = 0; y < oh; ++y )
                        for ( uint32_t b = 0; b < ow * p.cc; ++b )
                            if ( p.d[size_t( f.y[i] + y ) * p.row + f.x[i] * p.cc + b] != q.d[size_t( qy + y ) * q.row + qx * q.cc + b] )
                                fail( "value %u of row %u of output %d is %u, the plain region form gives %u", b, y, k, q.d[size_t( qy + y ) * q.row + qx * q.cc + b],
                                      p.d[size_t( f.y[i] + y ) * p.row + f.x[i] * p.cc + b] );
                }
            };
            for ( auto cc : colourSets( op ) ) {
                // a created image has the channel count the operation defines, so only such outputs are comparable
                if ( ret && image ) {
                    std::vector<Snap> s( size_t( operandCount( op ) ) );
                    for ( size_t k = 0; k < s.size(); ++k )
                        s[k].cc = cc[k];
                    const Args none;
                    if ( cc.back() != op.outColour( Ref{ none, s, 1, 1 } ) )
                        continue;
                }
                std::vector<std::pair<uint32_t, uint32_t>> shapes;
                for ( uint32_t w = 1; w <= top; ++w )
                    for ( uint32_t h = 1; h <= top; ++h )
                        shapes.push_back( { w, h } );
                shapes.push_back( { 67, 3 } );
                shapes.push_back( { 130, 2 } );
                for ( auto & sh : shapes ) {
                    if ( !next() )
                        continue;
                    const uint32_t w = sh.first, h = sh.second;
                    label( "%s::%s %s region %ux%u channels %u", name( impl.bk ), op.name.c_str(), name( impl.form ), w, h, cc[0] );
                    const auto vars = op.variants( w, h, cc[0] );
                    for ( uint32_t off = 0; off < ( full ? 1u : 2u ); ++off )
                        for ( int al = 0; al < 2; ++al )
                            for ( size_t vi = 0; vi < vars.size(); ++vi ) {
                                const Args & v = vars[vi];
                                if ( w > 20 && vars.size() > 20 && vi % 5 != w % 5 )
                                    continue;
                                uint32_t ow, oh;
                                op.outSize( v, w, h, ow, oh );
                                std::vector<Dim> d;
                                for ( int k = 0; k < operandCount( op ); ++k ) {
                                    const bool isOut = !op.inplace && op.outs && k >= firstOut( op );
                                    d.push_back( Dim{ ( isOut ? ow : w ) + off * 2, ( isOut ? oh : h ) + off, cc[k], uint8_t( al ? ( k % 2 ? 4 : 16 ) : 1 ) } );
                                }
                                compare( d, w, h, v, off, contentFor( op, int( w + h ) ), false );
                            }
                }
            }
            // decisions for parameters and channel counts
            if ( next() ) {
                label( "%s::%s %s decisions", name( impl.bk ), op.name.c_str(), name( impl.form ) );
                const uint32_t w = 4, h = 3;
                const auto sets = colourSets( op );
                for ( const Args & v : op.badVariants( w, h ) ) {
                    std::vector<Dim> d;
                    for ( int k = 0; k < operandCount( op ); ++k )
                        d.push_back( Dim{ w, h, sets[0][k], 1 } );
                    if ( op.name == "Transpose" )
                        std::swap( d[1].w, d[1].h );
                    compare( d, w, h, v, 0, HASH, true );
                }
                const auto all = op.variants( w, h, 1 );
                const Args v = all.empty() ? Args() : all[0];
                const uint8_t values[] = { 1, 2, 3, 4, 5 };
                std::vector<size_t> i( size_t( operandCount( op ) ), 0 );
                const int n = ret && image ? std::max( 1, op.ins ) : operandCount( op );
                for ( ;; ) {
                    std::vector<Dim> d;
                    std::vector<Snap> s( size_t( operandCount( op ) ) );
                    uint32_t ow, oh;
                    op.outSize( v, w, h, ow, oh );
                    for ( int k = 0; k < operandCount( op ); ++k ) {
                        const bool isOut = !op.inplace && op.outs && k >= firstOut( op );
                        d.push_back( Dim{ isOut ? ow : w, isOut ? oh : h, values[i[size_t( k )]], 1 } );
                        s[size_t( k )].cc = d.back().cc;
                    }
                    if ( ret && image ) {
                        const Args none;
                        d.back().cc = op.outColour( Ref{ none, s, 1, 1 } );
                    }
                    Args vv = v;
                    if ( op.name == "Accumulate" )
                        vv.vec.assign( size_t( w ) * h * d[0].cc, 0 );
                    compare( d, w, h, vv, 0, HASH, true );
                    int k = 0;
                    while ( k < n && ++i[size_t( k )] == 5 )
                        i[size_t( k++ )] = 0;
                    if ( k == n )
                        break;
                }
            }
        }
    }
}
