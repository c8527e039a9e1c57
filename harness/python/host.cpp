// C34: a python interpreter with the generated binding inside. The enumeration is in check.py.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "image_function.h"
#include "memory/hooks.h"
#include "vp.h"

extern "C" PyObject * PyInit__penguinV();

// the interpreter keeps its own objects until the end; objects of the library are counted by the heap below
extern "C" int __lsan_is_turned_off()
{
    return 1;
}

namespace
{
    using namespace vp;

    PyObject * none()
    {
        Py_RETURN_NONE;
    }
    PyObject * start( PyObject *, PyObject * )
    {
        return PyBool_FromLong( next() );
    }
    PyObject * setLabel( PyObject *, PyObject * text )
    {
        label( "%s", PyUnicode_AsUTF8( text ) );
        return none();
    }
    PyObject * setPhase( PyObject *, PyObject * text )
    {
        phase( "%s", PyUnicode_AsUTF8( text ) );
        return none();
    }
    PyObject * failed( PyObject *, PyObject * text )
    {
        const char * what = PyUnicode_AsUTF8( text );
        fail( "%s", what ? what : "?" );
        return none();
    }
    PyObject * count( PyObject *, PyObject * args )
    {
        unsigned long long calls = 0, compared = 0, refused = 0;
        if ( !PyArg_ParseTuple( args, "KKK", &calls, &compared, &refused ) )
            return nullptr;
        ctx().calls += calls;
        ctx().compared += compared;
        ctx().refused += refused;
        return none();
    }
    PyObject * readMemory( PyObject *, PyObject * args )
    {
        unsigned long long address;
        Py_ssize_t size;
        if ( !PyArg_ParseTuple( args, "Kn", &address, &size ) )
            return nullptr;
        std::string copy( size_t( size ), 0 );
        for ( size_t i = 0; i < size_t( size ); ++i ) // every byte is checked
            copy[i] = reinterpret_cast<const volatile char *>( address )[i];
        return PyBytes_FromStringAndSize( copy.data(), size );
    }
    PyObject * writeMemory( PyObject *, PyObject * args )
    {
        unsigned long long address;
        const char * data;
        Py_ssize_t size;
        if ( !PyArg_ParseTuple( args, "Ky#", &address, &data, &size ) )
            return nullptr;
        for ( Py_ssize_t i = 0; i < size; ++i )
            reinterpret_cast<volatile char *>( address )[i] = data[i];
        return none();
    }
    PyObject * live( PyObject *, PyObject * )
    {
        return PyLong_FromLongLong( heap::live() );
    }
    PyObject * thorough( PyObject *, PyObject * )
    {
        return PyBool_FromLong( ctx().thorough );
    }
    // a result of the library without the binding
    PyObject * threshold( PyObject *, PyObject * list )
    {
        std::vector<uint32_t> h;
        for ( Py_ssize_t i = 0; i < PyList_Size( list ); ++i )
            h.push_back( uint32_t( PyLong_AsUnsignedLong( PyList_GetItem( list, i ) ) ) );
        return PyLong_FromLong( Image_Function::GetThreshold( h ) );
    }

    PyMethodDef methods[] = { { "next", start, METH_NOARGS, "" },        { "label", setLabel, METH_O, "" },         { "phase", setPhase, METH_O, "" },
                              { "fail", failed, METH_O, "" },            { "count", count, METH_VARARGS, "" },      { "read", readMemory, METH_VARARGS, "" },
                              { "write", writeMemory, METH_VARARGS, "" }, { "live", live, METH_NOARGS, "" },         { "thorough", thorough, METH_NOARGS, "" },
                              { "threshold", threshold, METH_O, "" },    { nullptr, nullptr, 0, nullptr } };
    PyModuleDef module = { PyModuleDef_HEAD_INIT, "vp", "", -1, methods, nullptr, nullptr, nullptr, nullptr };
    PyObject * initModule()
    {
        return PyModule_Create( &module );
    }
}

int main( int argc, char ** argv )
{
    init( argc, argv );
    heap::limit() = size_t( 64 ) << 20;
    PyImport_AppendInittab( "_penguinV", PyInit__penguinV );
    PyImport_AppendInittab( "vp", initModule );
    PyConfig config;
    PyConfig_InitIsolatedConfig( &config );
    config.write_bytecode = 0;
    const PyStatus status = Py_InitializeFromConfig( &config );
    PyConfig_Clear( &config );
    if ( PyStatus_Exception( status ) ) {
        fprintf( stderr, "python cannot be started\n" );
        finished() = true;
        return 2;
    }
    PyRun_SimpleString( "import sys; sys.path[:0] = ['" SWIG_OUT "', '" VERIF_PYTHON "']" );
    const int rc = PyRun_SimpleString( "import traceback, vp\n"
                                       "try:\n"
                                       "    import check\n"
                                       "except BaseException:\n"
                                       "    vp.fail( 'unexpected: ' + ' '.join( traceback.format_exc().split() )[-1200:] )\n" );
    finish();
    _exit( rc == 0 ? 0 : 1 ); // destruction of the interpreter is not of interest
}
