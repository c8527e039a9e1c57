// C08 - C13, C17: comparison with the reference, rejection of invalid calls.
#include "common.h"
#include <set>

// ------------------------------------------------------------------------------------------------ C10 - C13, C17, C09
void exactProperty( const std::string & prop )
{
    const bool surroundings = prop == "C09";
    const int what = surroundings ? SURROUNDINGS : PIXELS;
    for ( const Op & op : OPS ) {
        if ( !surroundings && !inGroup( prop, op.name ) )
            continue;
        for ( const Impl & impl : op.impls ) {
            const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
            for ( const auto & cc : colourSets( op ) ) {
                const auto visit = [&]( const Op & o, const Impl & i, Args & a, const std::vector<Snap> & before ) {
                    phase( "%.180s", describe( o, i, a ).c_str() );
                    const Args copy = a;
                    const Result r = call( i, a );
                    checkAgainstReference( o, i, copy, before, r, what );
                };
                if ( !full ) {
                    const auto all = regionDims( op, cc );
                    for ( size_t di = 0; di < all.size(); ++di )
                        for ( int ci = 0; ci < 2; ++ci ) {
                            // the whole enumeration on the plain implementation, a part of it on the other ones
                            if ( impl.bk != CPU && !( ctx().thorough && impl.bk != POOL ) && ( ( di != 0 && di + 1 != all.size() ) || ci == 0 || impl.form == ROI_RET ) )
                                continue;
                            if ( impl.bk == POOL && di == 0 )
                                continue;
                            if ( !next() )
                                continue;
                            const auto & d = all[di];
                            label( "%s::%s %s regions of %ux%u channels %u alignment %u.. set %zu content %d", name( impl.bk ), op.name.c_str(), name( impl.form ), d[0].w, d[0].h,
                                   cc[0], d[0].al, di, ci );
                            allRegions( op, impl, d, contentFor( op, ci ), visit, ctx().thorough );
                        }
                    // widths around the vector sizes
                    for ( SimdMode mode : modesOf( impl.bk ) )
                        for ( uint32_t w : { 5u, 11u, 15u, 16u, 17u, 21u, 22u, 31u, 32u, 33u, 43u, 63u, 64u, 65u, 67u, 86u, 96u, 129u } ) {
                            if ( impl.bk == POOL && w > 17 && w != 65 )
                                continue;
                            if ( op.ins == 1 && op.outs == 1 && impl.bk == CPU && op.variants( w, 1, cc[0] ).size() > 30 && w != 17 && w != 65 && !ctx().thorough )
                                continue;
                            if ( !next() )
                                continue;
                            setMode( mode );
                            label( "%s::%s %s wide region %u channels %u %s", name( impl.bk ), op.name.c_str(), name( impl.form ), w, cc[0], name( mode ) );
                            for ( uint32_t off = 0; off < 2; ++off )
                                for ( uint32_t extra = 0; extra < 2; ++extra )
                                    for ( uint32_t h = 1; h < 4; h += 2 ) {
                                        std::vector<Dim> d;
                                        for ( int k = 0; k < operandCount( op ); ++k )
                                            d.push_back( Dim{ w + off + extra, h + extra, cc[k], uint8_t( extra && k % 2 ? 16 : 1 ) } );
                                        for ( const Args & v : op.variants( w, h, cc[0] ) ) {
                                            uint32_t ow, oh;
                                            op.outSize( v, w, h, ow, oh );
                                            auto dd = d;
                                            for ( int k = firstOut( op ); !op.inplace && op.outs && k < operandCount( op ); ++k )
                                                dd[k].w = ow + off + extra, dd[k].h = oh + extra;
                                            Operands o( op, impl, dd, contentFor( op, int( w ) ) );
                                            Args a = o.args;
                                            a.w = w;
                                            a.h = h;
                                            setParams( a, v );
                                            prepare( op, impl, a );
                                            for ( size_t k = 0; k < a.im.size(); ++k )
                                                a.x[k] = off;
                                            visit( op, impl, a, snaps( a ) );
                                        }
                                    }
                            setMode( ALL );
                        }
                }
                else {
                    const uint32_t top = ctx().thorough ? 8 : impl.bk == CPU ? 5 : 3;
                    for ( uint32_t w = 1; w <= top; ++w ) {
                        if ( !next() )
                            continue;
                        label( "%s::%s %s width %u channels %u", name( impl.bk ), op.name.c_str(), name( impl.form ), w, cc[0] );
                        for ( uint32_t h = 1; h <= top; ++h )
                            for ( int align = 0; align < ( 1 << operandCount( op ) ); ++align )
                                for ( int ci = 0; ci < 2; ++ci ) {
                                    std::vector<Dim> d;
                                    for ( int k = 0; k < operandCount( op ); ++k )
                                        d.push_back( Dim{ w, h, cc[k], uint8_t( align >> k & 1 ? 4 : 1 ) } );
                                    wholeImage( op, impl, d, contentFor( op, ci ), visit );
                                }
                    }
                }
            }
        }
    }
}

// sizes and sums which do not fit into 16 bits or the mantissa of float
void bigImages( const std::string & prop )
{
    static const Dim shapes[] = { { 70001, 2, 1, 1 }, { 2, 70001, 1, 1 }, { 300, 301, 1, 4 }, { 1031, 1029, 1, 1 }, { 4104, 4104, 1, 1 } };
    for ( const Op & op : OPS ) {
        if ( !inGroup( prop, op.name ) )
            continue;
        const bool sums = op.name == "Sum" || op.name == "Histogram" || op.name == "ProjectionProfile" || op.name == "Accumulate";
        int done = -1; // one form of every backend
        for ( const Impl & impl : op.impls ) {
            if ( impl.form == FULL_OUT || impl.form == FULL_RET || int( impl.bk ) == done )
                continue;
            done = int( impl.bk );
            for ( const auto & cc : colourSets( op ) )
                for ( size_t s = 0; s < sizeof shapes / sizeof *shapes; ++s ) {
                    if ( ( s == 3 && !sums && !ctx().thorough ) || ( s == 4 && !sums ) || ( s == 4 && cc[0] > 1 ) )
                        continue;
                    for ( SimdMode mode : modesOf( impl.bk ) )
                        for ( int white = s == 4 ? 1 : 0; white < 2; ++white ) {
                            const Content content = white && op.name != "Normalize" ? WHITE : contentFor( op, white );
                            const std::vector<Args> variants = op.variants( shapes[s].w, shapes[s].h, cc[0] );
                            for ( size_t vi = 0; vi < variants.size(); vi += std::max<size_t>( 1, ( variants.size() - 1 ) / ( ctx().thorough ? 5 : 1 ) ) ) {
                                const bool filter = op.name == "BinaryDilate" || op.name == "BinaryErode" || op.name == "Median";
                                if ( filter && ( variants[vi].n0 > 3 || variants[vi].n1 > 3 ) )
                                    continue; // takes too long
                                if ( !next() )
                                    continue;
                                label( "%s::%s %s big image %ux%u channels %u content %d parameters %zu %s", name( impl.bk ), op.name.c_str(), name( impl.form ), shapes[s].w, shapes[s].h, cc[0], white, vi,
                                       name( mode ) );
                                setMode( mode );
                                Args v = variants[vi];
                                uint32_t ow, oh;
                                op.outSize( v, shapes[s].w, shapes[s].h, ow, oh );
                                std::vector<Dim> d;
                                for ( int k = 0; k < operandCount( op ); ++k ) {
                                    const bool out = !op.inplace && k >= firstOut( op );
                                    d.push_back( Dim{ out ? ow : shapes[s].w, out ? oh : shapes[s].h, cc[k], shapes[s].al } );
                                }
                                Operands o( op, impl, d, content );
                                Args a = o.args;
                                setParams( a, v );
                                a.w = shapes[s].w;
                                a.h = shapes[s].h;
                                prepare( op, impl, a );
                                const std::vector<Snap> before = snaps( a );
                                phase( "%.180s", describe( op, impl, a ).c_str() );
                                const Args copy = a;
                                const Result r = call( impl, a );
                                checkAgainstReference( op, impl, copy, before, r, PIXELS );
                                setMode( ALL );
                            }
                        }
                }
        }
    }
}

// C09: the result depends only on the pixels of the input regions
void independence()
{
    for ( const Op & op : OPS ) {
        for ( const Impl & impl : op.impls ) {
            if ( impl.form == FULL_OUT || impl.form == FULL_RET || impl.bk == POOL || impl.bk == AUTO )
                continue;
            for ( const auto & cc : colourSets( op ) ) {
                for ( int variant = 0; variant < 2; ++variant ) {
                    if ( !next() )
                        continue;
                    label( "%s::%s %s independence of surroundings, channels %u, %s", name( impl.bk ), op.name.c_str(), name( impl.form ), cc[0], variant ? "wide" : "small" );
                    const uint32_t W = variant ? 70 : 5, H = variant ? 4 : 5;
                    std::vector<Dim> d;
                    for ( int k = 0; k < operandCount( op ); ++k )
                        d.push_back( Dim{ W, variant && op.name == "Transpose" && k == 1 ? W : H, cc[k], uint8_t( k % 2 ? 1 : 8 ) } );
                    for ( uint32_t w : variant ? std::vector<uint32_t>{ 16, 33, 66, 68 } : std::vector<uint32_t>{ 1, 2, 3, 4 } )
                        for ( uint32_t h = 1; h <= H; ++h )
                            for ( const Args & v : op.variants( w, h, cc[0] ) ) {
                                Result res[2];
                                Args used;
                                uint32_t ow = 0, oh = 0;
                                bool fits = true;
                                for ( int run = 0; run < 2 && fits; ++run ) {
                                    Operands o( op, impl, d, contentFor( op, 0 ) );
                                    Args a = o.args;
                                    a.w = w;
                                    a.h = h;
                                    setParams( a, v );
                                    prepare( op, impl, a );
                                    op.outSize( a, w, h, ow, oh );
                                    for ( size_t k = 0; k < a.im.size(); ++k ) {
                                        const bool isOut = !op.inplace && int( k ) >= firstOut( op ) && op.outs;
                                        a.x[k] = isOut ? 0 : ( W - w ) / 2;
                                        a.y[k] = isOut ? 0 : ( H - h ) / 2;
                                        fits = fits && ( !isOut || ( ow <= a.im[k]->width() && oh <= a.im[k]->height() ) );
                                        if ( run == 1 && !isOut ) { // everything outside of the region gets other values
                                            Image & im = *a.im[k];
                                            for ( uint32_t y = 0; y < im.height(); ++y )
                                                for ( uint32_t b = 0; b < im.rowSize(); ++b ) {
                                                    const bool roi = y >= a.y[k] && y < a.y[k] + h && b >= a.x[k] * im.colorCount() && b < ( a.x[k] + w ) * im.colorCount();
                                                    const bool pad = b >= im.width() * im.colorCount();
                                                    if ( pad || ( !roi && !op.neighbours ) )
                                                        im.data()[size_t( y ) * im.rowSize() + b] ^= 0xFF;
                                                }
                                        }
                                    }
                                    if ( !fits )
                                        break;
                                    used = a;
                                    phase( "%.180s", describe( op, impl, a ).c_str() );
                                    res[run] = call( impl, a );
                                }
                                if ( !fits )
                                    continue;
                                ++ctx().compared;
                                if ( res[0].threw != res[1].threw || res[0].vec != res[1].vec || res[0].num != res[1].num || res[0].ret.d != res[1].ret.d )
                                    fail( "the result depends on values outside of the region of interest" );
                                if ( impl.form == ROI_OUT && op.outs && !res[0].threw )
                                    for ( int k = firstOut( op ); k < operandCount( op ); ++k ) {
                                        const Snap &p = res[0].ops[k], &q = res[1].ops[k];
                                        for ( uint32_t y = 0; y < oh; ++y )
                                            if ( memcmp( &p.d[( used.y[k] + y ) * p.row + used.x[k] * p.cc], &q.d[( used.y[k] + y ) * q.row + used.x[k] * q.cc], ow * p.cc ) != 0 )
                                                fail( "output row %u depends on values outside of the region of interest", y );
                                    }
                            }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C08
// calls with valid and invalid arguments of every kind for one implementation
void decisionCases( const Op & op, const Impl & impl, uint32_t W, uint32_t H, const char * prefix, const std::function<void( const Op &, const Impl &, Args & )> & judge )
{
            const bool ret = impl.form == ROI_RET || impl.form == FULL_RET;
            const bool full = impl.form == FULL_OUT || impl.form == FULL_RET;
            const int n = op.inplace ? 1 : op.ins + ( ret ? 0 : op.outs );
            const auto check = [&]( Args & a ) { judge( op, impl, a ); };
            const auto goodArgs = [&]( Args & a, uint8_t cc, size_t variant ) {
                const uint32_t w = full ? W : W - 1, h = full ? H : H - 1;
                const auto vars = op.variants( w, h, cc );
                a.w = w;
                a.h = h;
                if ( !vars.empty() )
                    setParams( a, vars[variant % vars.size()] );
                if ( op.sizesFree ) {
                    a.ow = 3;
                    a.oh = 2;
                }
                prepare( op, impl, a );
            };
            const auto goodDims = [&]( const std::vector<uint8_t> & cc ) {
                std::vector<Dim> d;
                for ( int k = 0; k < operandCount( op ); ++k ) {
                    Dim x{ W, H, cc[k], uint8_t( k % 2 ? 4 : 1 ) };
                    if ( op.name == "Transpose" && k == 1 )
                        std::swap( x.w, x.h );
                    d.push_back( x );
                }
                return d;
            };
            const auto good = colourSets( op );

            // parameters may choose different code: the first ones, the last ones and one in the middle
            const size_t variantCount = op.variants( full ? W : W - 1, full ? H : H - 1, good[0][0] ).size();
            std::set<size_t> chosen = { 0 };
            if ( variantCount > 1 )
                chosen.insert( { 1, variantCount / 2, variantCount - 2, variantCount - 1 } );
            for ( size_t variant : chosen ) {
            // 1. every combination of channel counts (2 and 5 are not supported by any function)
            if ( next() ) {
                label( "%s%s::%s %s channel counts variant %zu", prefix, name( impl.bk ), op.name.c_str(), name( impl.form ), variant );
                std::vector<size_t> i( size_t( n ), 0 );
                const uint8_t values[] = { 1, 2, 3, 4, 5 };
                for ( ;; ) {
                    std::vector<uint8_t> cc = good[0];
                    for ( int k = 0; k < n; ++k )
                        cc[k] = values[i[k]];
                    Operands o( op, impl, goodDims( cc ), contentFor( op, 0 ) );
                    Args a = o.args;
                    goodArgs( a, cc[0], variant );
                    check( a );
                    int k = 0;
                    while ( k < n && ++i[k] == 5 )
                        i[k++] = 0;
                    if ( k == n )
                        break;
                }
            }
            // 2. every operand empty
            if ( next() ) {
                label( "%s%s::%s %s empty operands variant %zu", prefix, name( impl.bk ), op.name.c_str(), name( impl.form ), variant );
                for ( const auto & cc : good )
                    for ( int mask = 1; mask < ( 1 << n ); ++mask )
                        for ( int zeroRegion = 0; zeroRegion < 2; ++zeroRegion ) {
                            auto d = goodDims( cc );
                            for ( int k = 0; k < n; ++k )
                                if ( mask >> k & 1 )
                                    d[k].w = d[k].h = 0;
                            Operands o( op, impl, d, contentFor( op, 0 ) );
                            Args a = o.args;
                            goodArgs( a, cc[0], variant );
                            if ( zeroRegion )
                                a.w = a.h = 0;
                            check( a );
                        }
            }
            // 3. positions and sizes of the region
            if ( !full && next() ) {
                label( "%s%s::%s %s region limits variant %zu", prefix, name( impl.bk ), op.name.c_str(), name( impl.form ), variant );
                const uint32_t big[] = { 0, 1, 2, 3, 4, W - 1, W, W + 1, W + 3, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF };
                for ( const auto & cc : good ) {
                    Operands o( op, impl, goodDims( cc ), contentFor( op, 0 ) );
                    const std::vector<Snap> before = snaps( o.args );
                    const auto restore = [&]() {
                        for ( size_t k = 0; k < before.size(); ++k )
                            memcpy( o.args.im[k]->data(), before[k].d.data(), before[k].d.size() );
                    };
                    // small regions, which functions may handle on their own
                    const uint32_t smallW[] = { 1, 2, 1, W - 1 }, smallH[] = { 1, 1, 2, 1 };
                    for ( int small = 0; small < 4; ++small )
                        for ( int axis = 0; axis < 2; ++axis )
                            for ( int k = 0; k < n; ++k )
                                for ( uint32_t pos : big ) {
                                    Args a = o.args;
                                    goodArgs( a, cc[0], variant );
                                    a.w = smallW[small];
                                    a.h = smallH[small];
                                    if ( op.name == "Accumulate" )
                                        a.vec.assign( size_t( a.w ) * a.h * cc[0], 0 );
                                    ( axis ? a.y : a.x )[k] = pos;
                                    check( a );
                                    restore();
                                }
                    for ( int axis = 0; axis < 2; ++axis ) {
                        for ( uint32_t size : big ) {
                            for ( int k = 0; k < n; ++k )
                                for ( uint32_t pos : big ) {
                                    Args a = o.args;
                                    goodArgs( a, cc[0], variant );
                                    if ( op.name == "Accumulate" && size <= W )
                                        a.vec.assign( size_t( axis ? a.w : size ) * ( axis ? size : a.h ) * cc[0], 0 );
                                    ( axis ? a.h : a.w ) = size;
                                    ( axis ? a.y : a.x )[k] = pos;
                                    check( a );
                                    restore();
                                }
                            if ( op.sizesFree ) // size of the output region
                                for ( uint32_t pos : big ) {
                                    if ( impl.form == ROI_RET && ( size > 8 || pos ) )
                                        continue;
                                    Args a = o.args;
                                    goodArgs( a, cc[0], variant );
                                    ( axis ? a.oh : a.ow ) = size;
                                    if ( impl.form == ROI_OUT )
                                        ( axis ? a.y : a.x )[1] = pos;
                                    check( a );
                                    restore();
                                }
                        }
                    }
                }
            }
            // 4. sizes of images in the whole image forms
            if ( full && n > 1 && next() ) {
                label( "%s%s::%s %s image sizes variant %zu", prefix, name( impl.bk ), op.name.c_str(), name( impl.form ), variant );
                for ( const auto & cc : good )
                    for ( int k = 0; k < n; ++k )
                        for ( int dx = -1; dx <= 1; ++dx )
                            for ( int dy = -1; dy <= 1; ++dy ) {
                                auto d = goodDims( cc );
                                d[k].w = uint32_t( int( d[k].w ) + dx );
                                d[k].h = uint32_t( int( d[k].h ) + dy );
                                Operands o( op, impl, d, contentFor( op, 0 ) );
                                Args a = o.args;
                                goodArgs( a, cc[0], variant );
                                if ( op.name == "Accumulate" )
                                    a.vec.assign( size_t( d[0].w ) * d[0].h * cc[0], 0 );
                                check( a );
                            }
            }
            }
            // 5. parameters out of their domain
            if ( next() ) {
                label( "%s%s::%s %s parameters", prefix, name( impl.bk ), op.name.c_str(), name( impl.form ) );
                const uint32_t w = full ? W : W - 1, h = full ? H : H - 1;
                for ( const auto & cc : good )
                    for ( const Args & v : op.badVariants( w, h ) ) {
                        Operands o( op, impl, goodDims( cc ), contentFor( op, 0 ) );
                        Args a = o.args;
                        goodArgs( a, cc[0], 0 );
                        setParams( a, v );
                        check( a );
                    }
                // and all the valid ones
                for ( const auto & cc : good )
                    for ( uint32_t i = 0; i < op.variants( w, h, cc[0] ).size(); ++i ) {
                        Operands o( op, impl, goodDims( cc ), contentFor( op, 0 ) );
                        Args a = o.args;
                        goodArgs( a, cc[0], i );
                        check( a );
                    }
            }
}

static void judgeByDocumentation( const Op & op, const Impl & impl, Args & a )
{
    phase( "%.180s", describe( op, impl, a ).c_str() );
    const bool ok = valid( op, impl, a );
    const std::vector<Snap> before = snaps( a );
    const Result r = call( impl, a );
    ++ctx().compared;
    if ( ok && r.threw )
        fail( "valid call was refused" );
    if ( !ok && !r.threw )
        fail( "invalid call was accepted" );
    if ( r.threw )
        for ( size_t k = 0; k < before.size(); ++k )
            if ( before[k].d != r.ops[k].d || before[k].w != r.ops[k].w || before[k].h != r.ops[k].h || before[k].cc != r.ops[k].cc )
                fail( "refused call modified operand %zu", k );
}

void rejection()
{
    const uint32_t W = 5, H = 4;
    for ( const Op & op : OPS )
        for ( const Impl & impl : op.impls ) {
            decisionCases( op, impl, W, H, "", judgeByDocumentation );
            if ( impl.bk != CPU && impl.bk != POOL ) // wide enough for vector instructions
                decisionCases( op, impl, 70, 3, "wide ", judgeByDocumentation );
        }

    // single pixel access
    if ( next() ) {
        label( "GetPixel and SetPixel" );
        const uint32_t pos[] = { 0, 1, W - 1, W, H - 1, H, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
        for ( uint8_t cc : { 1, 2, 3, 4 } )
            for ( int empty = 0; empty < 2; ++empty )
                for ( int which = 0; which < 4; ++which )
                    for ( uint32_t x : pos )
                        for ( uint32_t y : pos ) {
                            Img i = make( Dim{ empty ? 0 : W, empty ? 0 : H, cc, 4 } );
                            if ( !empty )
                                fillImage( *i, 0, HASH );
                            const Snap before = snap( *i );
                            phase( "function %d cc %u empty %d at %u,%u", which, cc, empty, x, y );
                            ++ctx().calls;
                            bool threw = false;
                            int got = -1;
                            try {
                                if ( which == 0 )
                                    got = Image_Function::GetPixel( *i, x, y );
                                else if ( which == 1 )
                                    got = penguinV::GetPixel( *i, x, y );
                                else if ( which == 2 )
                                    Image_Function::SetPixel( *i, x, y, 7 );
                                else
                                    penguinV::SetPixel( *i, x, y, 7 );
                            }
                            catch ( const penguinVException & ) {
                                threw = true;
                            }
                            const bool ok = !empty && cc == 1 && x < W && y < H;
                            expect( threw == !ok, ok ? "valid access was refused" : "invalid access was accepted" );
                            Snap after = snap( *i );
                            if ( ok && which >= 2 )
                                after.d[y * after.row + x] = before.d[y * after.row + x];
                            expect( after.d == before.d, "other pixels were modified" );
                            if ( ok && which < 2 )
                                expect( got == before.at( x, y ), "wrong pixel" );
                            if ( ok && which >= 2 )
                                expect( i->data()[y * i->rowSize() + x] == 7, "pixel was not set" );
                        }
        // lists of pixels: all lists of up to 3 points out of valid and invalid ones
        const uint32_t px[][2] = { { 0, 0 }, { W - 1, H - 1 }, { 2, 1 }, { W, 0 }, { 0, H }, { 0xFFFFFFFF, 0xFFFFFFFF } };
        for ( int which = 0; which < 2; ++which )
            for ( int cc : { 1, 3 } )
                for ( int len = 0; len <= 3; ++len )
                    for ( int code = 0; code < 216; ++code )
                        for ( int extra = 0; extra < 2; ++extra ) {
                            Vec X, Y;
                            bool ok = len > 0 && !extra && cc == 1;
                            for ( int k = 0, c = code; k < len; ++k, c /= 6 ) {
                                X.push_back( px[c % 6][0] );
                                Y.push_back( px[c % 6][1] );
                                ok = ok && c % 6 < 3;
                            }
                            if ( extra )
                                X.push_back( 0 );
                            Img i = make( Dim{ W, H, uint8_t( cc ), 4 } );
                            fillImage( *i, 0, HASH );
                            const Snap before = snap( *i );
                            phase( "SetPixel list of %d code %d backend %d", len, code, which );
                            ++ctx().calls;
                            bool threw = false;
                            try {
                                if ( which )
                                    penguinV::SetPixel( *i, X, Y, 9 );
                                else
                                    Image_Function::SetPixel( *i, X, Y, 9 );
                            }
                            catch ( const penguinVException & ) {
                                threw = true;
                            }
                            expect( threw == !ok, ok ? "valid call was refused" : "invalid call was accepted" );
                            Snap e = before;
                            if ( ok )
                                for ( size_t k = 0; k < X.size(); ++k )
                                    e.d[Y[k] * e.row + X[k]] = 9;
                            expect( snap( *i ).d == e.d, threw ? "refused call modified the image" : "wrong pixels after the call" );
                        }
    }
    if ( next() ) {
        label( "GetThreshold sizes" );
        for ( size_t size : { size_t( 0 ), size_t( 1 ), size_t( 255 ), size_t( 256 ), size_t( 257 ), size_t( 768 ) } )
            for ( int which = 0; which < 2; ++which ) {
                Vec v( size, 1 );
                bool threw = false;
                ++ctx().calls;
                try {
                    which ? penguinV::GetThreshold( v ) : Image_Function::GetThreshold( v );
                }
                catch ( const penguinVException & ) {
                    threw = true;
                }
                expect( threw == ( size != 256 ), "wrong accept or reject decision of GetThreshold" );
            }
    }
    if ( next() ) {
        label( "GetGaussianKernel parameters" );
        for ( uint32_t w : { 0u, 1u, 2u, 3u, 4u, 5u, 7u } )
            for ( uint32_t h : { 0u, 1u, 2u, 3u, 4u, 5u, 8u } )
                for ( uint32_t k : { 0u, 1u, 2u, 3u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu } )
                    for ( float s : { -1.0f, -0.001f, 0.5f, 3.0f } ) {
                        phase( "%ux%u kernel %u sigma %g", w, h, k, s );
                        std::vector<float> f( 3, 9.0f );
                        bool threw = false;
                        ++ctx().calls;
                        try {
                            Image_Function::GetGaussianKernel( f, w, h, k, s );
                        }
                        catch ( const penguinVException & ) {
                            threw = true;
                        }
                        const bool ok = w >= 3 && h >= 3 && k > 0 && w >= uint64_t( k ) * 2 + 1 && h >= uint64_t( k ) * 2 + 1 && s > 0;
                        expect( threw == !ok, ok ? "valid parameters were refused" : "invalid parameters were accepted" );
                        expect( !threw || f == std::vector<float>( 3, 9.0f ), "refused call modified the kernel" );
                    }
    }
}

// ------------------------------------------------------------------------------------------------ C10: all values
void allValues()
{
    for ( const Op & op : OPS ) {
        if ( !inGroup( "C10", op.name ) || op.inplace )
            continue;
        const Impl * impl = op.find( CPU, FULL_RET );
        if ( op.ins == 2 ) {
            if ( next() ) {
                label( "%s all 65536 pairs of values", op.name.c_str() );
                Operands o( op, *impl, { Dim{ 256, 256, 1, 1 }, Dim{ 256, 256, 1, 1 }, Dim{ 256, 256, 1, 1 } }, HASH );
                for ( uint32_t y = 0; y < 256; ++y )
                    for ( uint32_t x = 0; x < 256; ++x ) {
                        o.own[0]->data()[y * 256 + x] = uint8_t( x );
                        o.own[1]->data()[y * 256 + x] = uint8_t( y );
                    }
                Args a = o.args;
                a.w = a.h = 256;
                checkAgainstReference( op, *impl, a, snaps( a ), call( *impl, a ), PIXELS );
            }
            continue;
        }
        std::vector<Args> vars;
        if ( op.name == "Threshold" )
            for ( int t = 0; t < 256; ++t ) {
                vars.push_back( Args() );
                vars.back().u0 = uint8_t( t );
            }
        else if ( op.name == "ThresholdRange" )
            for ( int t = 0; t < 256; ++t )
                for ( int u = t; u < 256; ++u ) {
                    vars.push_back( Args() );
                    vars.back().u0 = uint8_t( t );
                    vars.back().u1 = uint8_t( u );
                }
        else if ( op.name == "GammaCorrection" )
            for ( int g = 1; g <= 40; ++g )
                for ( int m = 0; m <= 24; ++m ) {
                    vars.push_back( Args() );
                    vars.back().d0 = m / 8.0;
                    vars.back().d1 = g / 10.0;
                }
        else
            vars = op.variants( 256, 1, 1 );
        for ( size_t i = 0; i < vars.size(); i += 64 ) {
            if ( !next() )
                continue;
            label( "%s all 256 values, parameter sets %zu..", op.name.c_str(), i );
            Operands o( op, *impl, { Dim{ 256, 1, 1, 1 }, Dim{ 256, 1, 1, 1 } }, HASH );
            for ( int x = 0; x < 256; ++x )
                o.own[0]->data()[x] = uint8_t( x );
            for ( size_t k = i; k < i + 64 && k < vars.size(); ++k ) {
                Args a = o.args;
                setParams( a, vars[k] );
                a.w = 256;
                a.h = 1;
                phase( "%.180s", describe( op, *impl, a ).c_str() );
                checkAgainstReference( op, *impl, a, snaps( a ), call( *impl, a ), PIXELS );
            }
        }
    }
}
