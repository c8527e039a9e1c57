// The functions of the CUDA backend on the stand-in runtime, see ../img/device.h.
#include "../img/common.h"
#include "cuda/image_buffer_cuda.cuh"
#include "cuda/image_function_cuda.cuh"
#include "cuda/cuda_device.cuh"
#include "cuda/cuda_helper.cuh"
#include "emu.h"

const int DEVICE_TYPE = 1;
#define DEVICE CUDA
#define DEVICE_ROTATE
namespace DeviceFunctions = Image_Function_Cuda;
typedef penguinV::ImageCuda DeviceImage;

static void deviceWrite( Image & dev, const void * host, size_t n )
{
    cudaEmu::write( dev.data(), host, n );
}
static void deviceRead( const Image & dev, void * host, size_t n )
{
    cudaEmu::read( host, dev.data(), n );
}
static void deviceIdle() // calls of the user are followed by a synchronisation
{
    cudaEmu::forget();
}
template <typename... A>
static auto toDevice( A &&... a )
{
    return Image_Function_Cuda::ConvertToCuda( std::forward<A>( a )... );
}
template <typename... A>
static auto fromDevice( A &&... a )
{
    return Image_Function_Cuda::ConvertFromCuda( std::forward<A>( a )... );
}
#include "../img/device.h"

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    cudaEmu::state().maxThreads = 1024;
    multiCuda::CudaDeviceManager & manager = multiCuda::CudaDeviceManager::instance();
    manager.initializeDevices();
    manager.setActiveDevice( 0 );
    ImageTypeManager::instance().enableIntertypeConversion( true );
    multiCuda::CudaDevice & device = manager.device();
    const bool deep = ctx().thorough;
    // without streams
    device.setThreadsPerBlock( 64 );
    allCases();
    // an own stream of the device, memory from the preallocated block
    device.setStreamCount( 2 );
    device.setCurrentStreamId( 1 );
    device.allocator().reserve( 1 << 20 );
    device.setThreadsPerBlock( 32 );
    allCases( false );
    if ( deep )
        for ( uint32_t threads : { 96u, 256u, 1024u } ) {
            device.setThreadsPerBlock( threads );
            allCases( false );
        }
    vp::finish();
    return 0;
}
