// Stands in for the processor: the code under test includes this file instead of the header of the compiler.
#pragma once
#include <cstdint>
struct FakeCpu
{
    uint32_t maxLeaf;
    uint32_t leaf1[4], leaf7[4]; // eax, ebx, ecx, edx
    int wrong = 0; // requests for leaves which the processor does not have
};
extern FakeCpu fakeCpu;
inline void fakeCpuid( uint32_t leaf, uint32_t sub, int & a, int & b, int & c, int & d )
{
    static const uint32_t zero[4] = { 0, 0, 0, 0 };
    const uint32_t * r = zero;
    if ( leaf == 0 ) {
        a = int( fakeCpu.maxLeaf );
        b = 0x756e6547;
        c = 0x6c65746e;
        d = 0x49656e69;
        return;
    }
    if ( leaf > fakeCpu.maxLeaf ) {
        // processors answer such requests with the data of their last leaf
        static const uint32_t ones[4] = { 0xFFFFFFFFu, 0xFFFFFFFFu, 0xFFFFFFFFu, 0xFFFFFFFFu };
        r = ones;
    }
    else if ( leaf == 1 )
        r = fakeCpu.leaf1;
    else if ( leaf == 7 && sub == 0 )
        r = fakeCpu.leaf7;
    a = int( r[0] );
    b = int( r[1] );
    c = int( r[2] );
    d = int( r[3] );
}
#define __cpuid_count( level, count, a, b, c, d ) fakeCpuid( level, count, a, b, c, d )
#define __cpuid( level, a, b, c, d ) fakeCpuid( level, 0, a, b, c, d )
inline unsigned int __get_cpuid_max( unsigned int, unsigned int * )
{
    return fakeCpu.maxLeaf;
}
inline int __get_cpuid_count( unsigned int leaf, unsigned int sub, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d )
{
    if ( leaf > fakeCpu.maxLeaf )
        return 0;
    int r[4];
    fakeCpuid( leaf, sub, r[0], r[1], r[2], r[3] );
    *a = unsigned( r[0] );
    *b = unsigned( r[1] );
    *c = unsigned( r[2] );
    *d = unsigned( r[3] );
    return 1;
}
inline int __get_cpuid( unsigned int leaf, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d )
{
    return __get_cpuid_count( leaf, 0, a, b, c, d );
}
#define bit_SSE2 ( 1 << 26 )
#define bit_AVX2 ( 1 << 5 )
#define bit_AVX512F ( 1 << 16 )
#define bit_AVX512DQ ( 1 << 17 )
#define bit_AVX512CD ( 1 << 28 )
#define bit_AVX512BW ( 1 << 30 )
#define bit_AVX512VL ( 1u << 31 )
