// The functions of the OpenCL backend, see ../img/device.h.
#include "../img/common.h"
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"

extern "C" const char * __lsan_default_suppressions();
extern "C" const char * __lsan_default_suppressions() // the OpenCL implementation keeps memory of its own
{
    return "leak:libpocl\nleak:libOpenCL\nleak:libLLVM\nleak:libclang\n";
}

const int DEVICE_TYPE = 3;
#define DEVICE OPENCL
#define DEVICE_NORMALIZE
namespace DeviceFunctions = Image_Function_OpenCL;
typedef penguinV::ImageOpenCL DeviceImage;

static cl_mem mem( const Image & i )
{
    return reinterpret_cast<cl_mem>( const_cast<uint8_t *>( i.data() ) );
}
static void deviceWrite( Image & dev, const void * host, size_t n )
{
    multiCL::openCLCheck( clEnqueueWriteBuffer( multiCL::OpenCLDeviceManager::instance().device().queue()(), mem( dev ), CL_TRUE, 0, n, host, 0, nullptr, nullptr ) );
}
static void deviceRead( const Image & dev, void * host, size_t n )
{
    multiCL::openCLCheck( clEnqueueReadBuffer( multiCL::OpenCLDeviceManager::instance().device().queue()(), mem( dev ), CL_TRUE, 0, n, host, 0, nullptr, nullptr ) );
}
static void deviceIdle() {}
template <typename... A>
static auto toDevice( A &&... a )
{
    return Image_Function_OpenCL::ConvertToOpenCL( std::forward<A>( a )... );
}
template <typename... A>
static auto fromDevice( A &&... a )
{
    return Image_Function_OpenCL::ConvertFromOpenCL( std::forward<A>( a )... );
}
#include "../img/device.h"

int main( int argc, char ** argv )
{
    vp::init( argc, argv );
    setenv( "POCL_CACHE_DIR", "pocl", 1 );
    setenv( "POCL_CPU_MAX_CU_COUNT", "2", 0 );
    setenv( "POCL_MAX_PTHREAD_COUNT", "2", 0 );
    multiCL::enableDeviceSupport( true, true );
    if ( !multiCL::isOpenCLSupported() ) {
        fprintf( stderr, "no OpenCL device\n" );
        return 2;
    }
    multiCL::OpenCLDeviceManager::instance().initializeDevices();
    multiCL::OpenCLDeviceManager::instance().setActiveDevice( 0 );
    ImageTypeManager::instance().enableIntertypeConversion( true );
    allCases();
    vp::finish();
    return 0;
}
