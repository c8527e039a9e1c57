// C14, second part: an instruction set is reported as supported exactly if the processor has all the extensions its code needs.
// The processor is replaced by a table (fake/cpuid.h), all relevant feature words are enumerated.
#include "vp.h"
#include <cpuid.h>
#include "penguinv/cpu_id_unix.h"

using namespace vp;
FakeCpu fakeCpu;

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    const uint32_t avx512 = 1u << 31 | 1u << 30 | 1u << 28 | 1u << 17 | 1u << 16;
    const uint32_t avx2 = 1u << 5, sse2 = 1u << 26;
    std::vector<uint32_t> words = { 0, 0xFFFFFFFFu };
    for ( int i = 0; i < 32; ++i ) {
        words.push_back( 1u << i );
        words.push_back( ~( 1u << i ) );
    }
    for ( int m = 0; m < 64; ++m ) { // all subsets of the needed extensions, other bits clear or set
        uint32_t w = ( m & 1 ? 1u << 31 : 0 ) | ( m & 2 ? 1u << 30 : 0 ) | ( m & 4 ? 1u << 28 : 0 ) | ( m & 8 ? 1u << 17 : 0 ) | ( m & 16 ? 1u << 16 : 0 ) | ( m & 32 ? avx2 : 0 );
        words.push_back( w );
        words.push_back( w | ~( avx512 | avx2 ) );
    }
    const uint32_t leaves[] = { 0, 1, 2, 6, 7, 8, 13, 0x1F };
    for ( uint32_t maxLeaf : leaves )
        for ( uint32_t ebx : words )
            for ( uint32_t edx : words )
                for ( int other = 0; other < 2; ++other ) {
                    if ( !next() )
                        continue;
                    label( "highest leaf %u, leaf 7 ebx %08x, leaf 1 edx %08x, other words %s", maxLeaf, ebx, edx, other ? "all set" : "clear" );
                    const uint32_t o = other ? 0xFFFFFFFFu : 0;
                    fakeCpu.maxLeaf = maxLeaf;
                    const uint32_t l1[4] = { o, o, o, edx }, l7[4] = { o, ebx, o, o };
                    memcpy( fakeCpu.leaf1, l1, sizeof l1 );
                    memcpy( fakeCpu.leaf7, l7, sizeof l7 );
                    ctx().calls += 3;
                    const bool haveSse = maxLeaf >= 1 && ( edx & sse2 ), haveAvx = maxLeaf >= 7 && ( ebx & avx2 ), haveAvx512 = maxLeaf >= 7 && ( ebx & avx512 ) == avx512;
                    if ( CpuInformation::isSseSupported() && !haveSse )
                        fail( "SSE2 is reported for a processor without it" );
                    if ( CpuInformation::isAvxSupported() && !haveAvx )
                        fail( "AVX2 is reported for a processor without it" );
                    if ( CpuInformation::isAvx512SKLSupported() && !haveAvx512 )
                        fail( "AVX-512 is reported for a processor without all its extensions" );
                    if ( CpuInformation::isNeonSupported() )
                        fail( "NEON is reported for an x86 processor" );
                    if ( !CpuInformation::isSseSupported() && haveSse && haveAvx && other )
                        fail( "SSE2 is not reported for a processor which has it" );
                    if ( !CpuInformation::isAvxSupported() && haveSse && haveAvx && other )
                        fail( "AVX2 is not reported for a processor which has it" );
                    if ( !CpuInformation::isAvx512SKLSupported() && haveSse && haveAvx && haveAvx512 && other )
                        fail( "AVX-512 is not reported for a processor which has it" );
                    ++ctx().compared;
                }
    vp::finish();
    return 0;
}
