// A stand-in for cuFFT: discrete Fourier transforms computed by definition in double precision.
#pragma once
#include <cuda_runtime.h>

typedef struct
{
    float x, y;
} cufftComplex;
typedef int cufftHandle;
typedef enum cufftResult_t
{
    CUFFT_SUCCESS = 0,
    CUFFT_INVALID_PLAN = 1,
    CUFFT_ALLOC_FAILED = 2,
    CUFFT_INVALID_VALUE = 4,
    CUFFT_EXEC_FAILED = 6,
    CUFFT_INVALID_SIZE = 8
} cufftResult;
typedef enum cufftType_t
{
    CUFFT_C2C = 0x29
} cufftType;
#define CUFFT_FORWARD -1
#define CUFFT_INVERSE 1

extern "C" {
cufftResult cufftPlan2d( cufftHandle * plan, int nx, int ny, cufftType type );
cufftResult cufftExecC2C( cufftHandle plan, cufftComplex * in, cufftComplex * out, int direction );
cufftResult cufftSetStream( cufftHandle plan, cudaStream_t stream );
cufftResult cufftDestroy( cufftHandle plan );
}
