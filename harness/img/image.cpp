// Decides the image function properties by enumerating shapes, regions, alignments, channel counts, parameters, forms and implementations.
#include "common.h"

std::vector<Op> OPS;

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    OPS = makeOps();
    const std::string p = ctx().args.at( 0 );
    if ( ctx().args.size() > 1 ) // development aid: one function only
        OPS.erase( std::remove_if( OPS.begin(), OPS.end(), []( const Op & o ) { return o.name != ctx().args[1]; } ), OPS.end() );
    availableModes();
    ThreadPoolMonoid::instance().resize( 3 );
    if ( p == "C04" )
        poolEqual();
    else if ( p == "C14" )
        simdEqual();
    else if ( p == "C15" ) {
        agreement();
        bitForms( true, false );
    }
    else if ( p == "C08" ) {
        rejection();
        bitForms( false, true );
    }
    else if ( p == "C09" ) {
        exactProperty( p );
        independence();
        for ( const Bits & b : BITS )
            bitRegions( b, SURROUNDINGS );
    }
    else {
        exactProperty( p );
        bigImages( p );
        if ( p == "C10" )
            allValues();
        if ( p == "C11" )
            geometryExtras();
        if ( p == "C12" ) {
            channelExtras();
            for ( const Bits & b : BITS )
                bitRegions( b, PIXELS );
            bitForms( true, false );
        }
        if ( p == "C13" ) {
            thresholdExtras();
            binaryExtras();
        }
        if ( p == "C17" ) {
            morphologyExtras();
            wideWindows();
        }
    }
    vp::finish();
    return 0;
}
