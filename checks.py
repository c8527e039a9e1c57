"""Registry of the checks: what is built from which sources, how it is run, and what it covers."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

SCHED_LIB = ['-O1', '-g', '-fsanitize=thread']
SCHED = dict(kind='sched', level='model_checking', lib_flags=SCHED_LIB, harness_flags=SCHED_LIB + ['-Wno-tsan'],
             runtime=['harness/sched/rt.cpp'], runtime_flags=['-O2', '-g'],
             link_flags=['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'], libs=['-ldl'],
             assumptions=['sequentially consistent interleavings of synchronisation operations; acquire/release order is used for the race detector only',
                          'the signature used for pruning identifies a state by the happens-before history, which is exact for race-free code (C03 decides race freedom on the same scenarios)'])

SAN = ['-O1', '-g1', '-march=native', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ENUM = dict(kind='enum', level='model_checking', lib_flags=SAN, harness_flags=SAN, link_flags=['-fsanitize=address,undefined'], libs=['-lpthread'])


def sched(name, **kw):
    d = dict(SCHED)
    d.update(name=name, **kw)
    return d


def enum(name, **kw):
    d = dict(ENUM)
    d.update(name=name, **kw)
    return d


FILE_FLAGS = SAN + ['-DPENGUINV_ENABLED_PNG_SUPPORT', '-DPENGUINV_ENABLED_JPEG_SUPPORT']


def files(name, **kw):
    return enum(name, lib=['src/file/*.cpp'], harness=['harness/file/%s.cpp' % name], lib_flags=FILE_FLAGS, harness_flags=FILE_FLAGS, libs=['-lpthread', '-lpng', '-ljpeg'], **kw)


SCHED_TECH = 'stateless model checking of the real code under a controlled scheduler (preemption-bounded exhaustive interleavings, happens-before state caching)'
POOL = dict(technique=SCHED_TECH, note='Every interleaving of the listed small scenarios within the preemption bound, on the compiled implementation; trusts the scheduler runtime in harness/sched and assumes sequentially consistent atomics.',
            harness=['harness/sched/pool.cpp'], lib=['src/thread_pool*.cpp'])

IMAGE_TECH = 'bounded exhaustive model checking of the real code: every combination of the enumerated function, backend, call form, image layout, region, parameter and content is executed and compared with '
IMAGE_TRUST = ' Built with address and undefined behaviour sanitizers; every buffer is allocated with its exact size.'


def image(prop, oracle, note, bounds, **kw):
    return enum('image', args=[prop], lib=['src/image_function*.cpp', 'src/filtering*.cpp', 'src/function_pool*.cpp', 'src/thread_pool*.cpp', 'src/penguinv/*.cpp'],
                harness=['harness/img/%s.cpp' % n for n in ('image', 'exact', 'differential', 'extras', 'ops_pixel', 'ops_geometry', 'ops_channel', 'ops_statistics')],
                technique=IMAGE_TECH + oracle, note=note + IMAGE_TRUST, bounds=bounds, **kw)


LAYOUTS = 'region sizes 1..4 x 1..4 and selected larger ones up to 70, every start position and padding in small images, row alignments 1..8, 1 to 4 channels where accepted; '
TOOL_TECH = 'bounded exhaustive model checking of the real code: every case of the enumerated inputs is executed and compared with '
OPENCL_LIB = ['src/image_function*.cpp', 'src/filtering*.cpp', 'src/function_pool*.cpp', 'src/thread_pool*.cpp', 'src/penguinv/*.cpp', 'src/opencl/*.cpp']
CUDA = dict(lib=OPENCL_LIB[:-1] + ['src/math/fft_base.cpp', 'src/cuda/*.cu'], include=['-I' + os.path.join(HERE, 'harness', 'cuda', 'include'), '-I' + os.path.join(HERE, 'harness', 'cuda')],
            cuda_flags=SAN + ['--param', 'asan-instrumentation-with-call-threshold=0'])
BLOB = dict(lib=['src/blob_detection.cpp', 'src/math/math_base.cpp'], harness=['harness/tools/blob.cpp'])
CHECKS = {
    'C01': [sched('pool', args=['C01'], bounds='1-3 workers, 1-3 tasks per run, up to two providers, submitters and runs; preemption bound 1-2 (quick), up to 3 or unbounded (thorough and smallest scenarios); every spurious wake-up in separate scenarios.', **POOL)],
    'C02': [sched('pool', args=['C02'], bounds='all sequences of up to 2 (3 from one worker) controlling operations out of submit, wait, clear, stop, remove, resize to 1/2/3 threads, followed by destruction of provider or pool first; preemption bound 1-2.', **POOL)],
    'C03': [sched('pool', args=['C03'], bounds='the scenarios of C01 and C02 with a happens-before race detector and freed-memory detector on every access of pool, provider and task code.', **POOL)],
    'C04': [image('C04', 'the result of the same call on one thread',
                  'Pool results are compared with single-threaded results for every split of the region into tasks; the interleavings of the pool itself are decided by C01-C03 and C05.',
                  'Every function of Function_Pool, thread counts 1-9 and 16, regions 1..9 x 1..9 and larger selected sizes.')],
    'C05': [sched('callers', harness=['harness/sched/callers.cpp'], lib=['src/function_pool*.cpp', 'src/thread_pool*.cpp', 'src/image_function*.cpp', 'src/penguinv/*.cpp'], technique=SCHED_TECH,
                  note='Every operation of Function_Pool, alone and together with another caller whose call succeeds or fails, under every interleaving within the preemption bound; results are compared with the single-threaded functions in every execution.',
                  bounds='28 operations; 1-3 workers, 1-3 callers, images of 1x1 to 3x3; preemption bound 1-2.')],
    'C06': [enum('alloc', lib=[], harness=['harness/memory/allocator.cpp'],
                 technique='exhaustive enumeration of operation sequences and heap failure points on the real allocator (bounded model checking of its histories) with ownership oracle, and ' + SCHED_TECH,
                 note='Sequences are executed on the real class template; block ownership is checked by ranges and contents, the arena by using all of it again.',
                 bounds='every sequence of up to 6 (8 thorough) allocate and free calls on 16 arena sizes from 1 to 32 bytes, up to 9 (11) for one block size; sequences of 4-5 with mixed types, impossible sizes and reserve calls; every heap request of every call failing in sequences of up to 4 calls.'),
            sched('allocator', harness=['harness/sched/allocator.cpp'], lib=[], technique=SCHED_TECH, note='',
                  bounds='two threads with all pairs of 7 programs on arenas of 0, 4 and 8 bytes: all interleavings; three threads: preemption bound 2 (smallest programs).')],
    'C07': [enum('imgval', lib=[], harness=['harness/memory/image.cpp'],
                 technique='exhaustive enumeration of operation sequences and heap failure points on the real image container (bounded model checking of its histories) against a value model',
                 note='Every image is compared byte by byte with the model after every operation; address sanitizer and leak detection on every sequence.',
                 bounds='8-bit and 16-bit images, with and without preallocated memory, two images, a second image type; all pairs of 130 operations (triples in thorough), all sequences of 3-4 (5 thorough) of 46 basic operations; every heap request of the second operation failing.')],
    'C08': [image('C08', 'a predicate that says which calls are valid: every other call must throw and leave its images untouched',
                  'The validity predicate is written from the documentation of the functions and the behaviour common to all backends.',
                  'One invalid argument at a time for every function, form and backend: every start and size around the image borders and near 2^32, wrong channel counts, wrong sizes, wrong tables, wrong parameters.')],
    'C09': [image('C09', 'the surroundings of the output region before the call and the result of the same call with other surroundings of the input region',
                  'Outputs and inputs are compared byte by byte including row padding.',
                  LAYOUTS + 'two contents of surroundings.')],
    'C10': [image('C10', 'an independent per-pixel reference', 'The reference is written from the documentation, not from the implementation.',
                  LAYOUTS + 'all 65536 pairs of values for two-operand functions, all 256 values and all parameters of a byte for one-operand functions.')],
    'C11': [image('C11', 'an independent geometric reference', 'The reference is written from the documentation, not from the implementation.',
                  LAYOUTS + 'all flips, all size pairs of Resize up to 6x6 and selected larger ones, selected shifts and rotations including non-finite values.')],
    'C12': [image('C12', 'an independent reference of channel and depth conversions', 'The reference is written from the documentation, not from the implementation.',
                  LAYOUTS + 'all values of every channel, all 65536 values of 16-bit pixels.')],
    'C13': [image('C13', 'an independent reference of sums, histograms, projections, thresholds and comparisons', 'The reference is written from the documentation, not from the implementation.',
                  LAYOUTS + 'all 256 uniform images and extreme sums.')],
    'C14': [image('C14', 'the scalar result', 'Instruction sets which the processor running the check lacks are not executed.',
                  'Every SIMD function with every instruction set of this processor, every width 1..70 (130 thorough), all pairs of values.'),
            enum('cpuid', lib=[], harness=['harness/cpuid/cpuid.cpp'], harness_flags=SAN + ['-I' + HERE + '/harness/cpuid/fake'],
                 technique='exhaustive enumeration of processor feature words given to the real detection code', note='The processor is replaced by a table.',
                 bounds='all subsets of the needed extensions, each other bit alone, 8 highest leaves.')],
    'C15': [image('C15', 'the result of the complete form of the same function', 'All forms of a function are executed on the same data.',
                  LAYOUTS + 'every form of every function.')],
    'C16': [enum('dispatch', lib=['src/image_function*.cpp', 'src/filtering*.cpp', 'src/function_pool*.cpp', 'src/thread_pool*.cpp', 'src/penguinv/*.cpp'],
                 harness=['harness/dispatch/dispatch.cpp'] + ['harness/img/ops_%s.cpp' % n for n in ('pixel', 'geometry', 'channel', 'statistics')],
                 technique='exhaustive enumeration of the configurations of the dispatch interface (bounded model checking of the real code): image types of all arguments, available implementations, registered conversions, conversion on and off; oracle: the direct call on CPU images and a log of executed backend functions',
                 note='Two of the three image types are devices of the harness with encoded memory and recording backends.' + IMAGE_TRUST,
                 bounds='35 functions, all forms, all assignments of 3 types to up to 4 images, all 8 subsets of backends having the function, all / none / all but one of 6 conversions, valid and invalid regions; every table entry for registration.')],
    'C17': [image('C17', 'independent references of filters, edge and morphology functions', 'The reference is written from the documentation, not from the implementation.',
                  'Images up to 5x5 with all contents over a small alphabet, larger selected ones; all kernel sizes that fit; windows of up to 257 pixels for Median, half-sizes up to 300 for morphology, Gaussian kernels up to 140.')],
    'C18': [enum('blob', args=['C18'], **BLOB,
                 technique=TOOL_TECH + 'an independent flood fill', note='Components, boundary and contour are compared as sets of points; the reference is computed from the bitmap only.',
                 bounds='all bitmaps of up to 4x4 (and more elongated shapes), all placements of the region, thresholds and values around them, selected large shapes (spirals, combs, checkerboards).')],
    'C19': [enum('blob', args=['C19'], **BLOB,
                 technique=TOOL_TECH + 'measures computed from the points', note='Elongation may use any of equally long chords.',
                 bounds='all bitmaps of up to 4x4, every pair of bounds out of the occurring values and their neighbours for every parameter, pairs of parameters, all sortings, shapes beyond 46340 pixels.')],
    'C20': [enum('edge', lib=['src/edge_detection.cpp', 'src/math/math_base.cpp'], harness=['harness/tools/edge.cpp'],
                 technique=TOOL_TECH + 'a line by line definition of transitions', note='The definition of a transition (gradient maximum, extent down to a half or a third of it, contrast) is written as a predicate over one line in exact integer arithmetic; both floating point types are executed.',
                 bounds='all lines of up to 6 pixels over 5 values, 8 over 3, 11 over 2 (7, 9, 12 thorough), all directions, polarities and selections; all contrasts and offsets of a boundary set including 2^32-1; regions 1..6 x 1..6 with groups and skips from 1 to 2^32-1; regions of 70001 pixels with groups up to 650 and skips up to 65536.')],
    'C21': [enum('fft', lib=['src/fft.cpp', 'src/math/fft_base.cpp', 'src/thirdparty/kissfft/kiss_fft.c', 'src/thirdparty/kissfft/kiss_fftnd.c'], harness=['harness/tools/fft.cpp'],
                 technique=TOOL_TECH + 'the definition of the transform in double precision; exhaustive enumeration of operation sequences on the containers', note='The transform is linear, so unit impulses at every position decide it up to rounding; the tolerance is 2e-5 of the magnitude.',
                 bounds='all sizes up to 8x8 (12x12 thorough) and 1..66 (130) by 1 with real and imaginary impulses at every position; all pairs of impulses up to 4x4 (6x6) convolved; images up to 17x17 (40x40); sequences of up to 4 (5) container operations, every heap request failing in sequences of 3.')],
    'C22': [enum('math', lib=['src/math/math_base.cpp', 'src/math/haar_transform.cpp'], harness=['harness/tools/math.cpp'],
                 technique=TOOL_TECH + 'exact integer and rational geometry', note='Grid coordinates are small integers, so the expected results are exact or known to the last bits; tolerances are fixed multiples of the rounding unit.',
                 bounds='all points, all lines through two points and all pairs of lines on small integer grids in float and double; all integer matrices with small entries of 1x1..3x3 with right sides; all sizes of Haar transforms up to 8x8 with unit impulses.')],
    'C23': [enum('hough', lib=['src/math/math_base.cpp', 'src/math/hough_transform.cpp'], harness=['harness/tools/hough.cpp'],
                 technique=TOOL_TECH + 'a definitional search for the best line over all scanned angles', note='Which of several equally good lines is chosen is left open; distances within rounding of the tolerance may count either way, but the reported points must be at least as many as those surely found.',
                 bounds='all placements of 2..3 points on a 3x3 grid, 3 on 4x4, 4 on 3x3, 5 on 2x2 (more thorough) times 4 angles, 3 ranges, 3 steps and 5 tolerances in double and float; 24-point shapes with settings below their minimum; 255 to 70000 points.')],
    'C24': [enum('light', lib=['src/tool/light_correction.cpp', 'src/math/math_base.cpp'], harness=['harness/tools/light.cpp'],
                 technique=TOOL_TECH + 'the ratio of brightness and a model of the last successful calibration; exhaustive enumeration of operation sequences', note='A refused calibration may keep or drop the previous one, but a correction must never use a mixture of both.',
                 bounds='all images up to 4 pixels over 12 (6) values (5 and 6 pixels thorough) as calibration with 52 corrected images and all regions; all pairs of a calibration value and a brightest value with all 256 pixel values; regions from 12x12x12x12 positions and sizes including ones that wrap around; all sequences of 3 (4) calls over 10 images, copies, swaps and memory exhaustion; pictures of 70001 pixels in one dimension and 300x301.')],
    'C25': [files('roundtrip', technique=TOOL_TECH + 'the image which was saved, read by the library and by an independent reader of the format',
                  note='Files are written and read through the file system; JPEG contents vary in luminance only and may differ by 8 per channel.',
                  bounds='all sizes up to 9x9 (12x12 thorough), 1..5 channels, 3 alignments, every region (also ones which do not fit) of images up to 3x3 (4x4) and of 5x6; long, wide and multi-block images; both kinds of save and four kinds of load per file; raw images of 1, 2, 4 and 8 bytes per value; regions from 9x9x9x9 positions and sizes including ones that wrap around.')],
    'C26': [files('damage', technique=TOOL_TECH + 'an independent reader of bitmaps, check sums and header fields; exhaustive enumeration of damages and of read faults',
                  note='Files are generated by the harness (bitmaps byte by byte, PNG and JPEG by libpng and libjpeg directly). libjpeg completes truncated data by itself, so for damaged JPEG files only safety, termination and independence from old memory contents are decided.',
                  bounds='168 bitmaps, 126 PNG and 32 JPEG files of all supported kinds; truncation at every byte; every byte set to 10 values (all 256 in bitmap headers; all files and values thorough); all pairs of bitmap header fields over 25 values; 32-bit overflows of dimensions; PNG header fields, chunk removal, repetition, replacement, shortening and bit flips with repaired check sums; errors, ends and short reads at every read call; every heap request failing, 256 MB of memory at once; raw files over 16x16 dimensions.')],
    'C27': [files('fault', technique='bounded exhaustive fault injection on the real code: the operating system refuses to store the file at every byte position (file size limit), every heap request fails',
                  note='The file size limit makes the kernel fail writes at the exact byte. Reports through the exception of the library are required, and files of successful saves are loaded and compared.',
                  bounds='files of 4 formats, 2 channel counts, 5 shapes, whole and region, new and overwritten; a limit at every byte of small files and at every 7th..97th byte of bigger ones (every or every third thorough); 7 paths which cannot be written, exhausted file descriptors.')],
    'C28': [enum('opencl', lib=OPENCL_LIB, libs=['-lpthread', '-lOpenCL'],
                 harness=['harness/opencl/functions.cpp'] + ['harness/img/%s.cpp' % n for n in ('exact', 'extras', 'ops_pixel', 'ops_geometry', 'ops_channel', 'ops_statistics')],
                 technique=TOOL_TECH + 'the reference of the functions of the other backends; the kernels are executed by the installed OpenCL implementation for processors',
                 note='Every call is executed on the device and compared with the reference in all bytes of the output buffer. The order of work items within one kernel is chosen by the OpenCL implementation (pocl) and is not enumerated.',
                 bounds='all functions, four call forms, all regions of images of 3x2 and 2x3 (4x3 thorough) and whole images of 65x66, 1, 3 and 4 channels, alignments 1, 5 and 8 in all combinations, boundary parameters; all accept or reject decisions of regions around the image borders and of shapes that differ; all pairs of host and device shapes for transfers; every function through the common interface.')],
    'C29': [enum('cuda', harness=['harness/cuda/functions.cpp', 'harness/cuda/emu.cpp'] + ['harness/img/%s.cpp' % n for n in ('exact', 'extras', 'ops_pixel', 'ops_geometry', 'ops_channel', 'ops_statistics')], technique=TOOL_TECH + 'the reference of the functions of the other backends; the kernels of the repository are executed thread by thread on a stand-in CUDA runtime',
                 note='No GPU and no CUDA compiler is installed: tools/cucc.py turns the launches into calls of a stand-in runtime (harness/cuda) which executes the threads of every kernel, checks every memory access of a kernel and reports accesses of different threads which conflict. Properties of real hardware are not covered.',
                 bounds='all functions, four call forms, all regions of images of 3x2 and 2x3 (4x3 thorough) and whole images of 65x66, 1, 3 and 4 channels, alignments 1, 5 and 8 in all combinations, boundary parameters; blocks of 64 threads in the default stream and of 32 threads in a separate stream with prepared memory (96, 256, 1024 threads thorough); all accept or reject decisions; all pairs of host and device shapes for transfers.', **CUDA)],
    'C31': [enum('cudamem', harness=['harness/cuda/memory.cpp', 'harness/cuda/emu.cpp'], technique='exhaustive enumeration of operation sequences on the real code against value models; bounded exhaustive fault injection: every call to CUDA fails once during every operation',
                 note='Executed on the stand-in CUDA runtime (see C29), which follows every device object and keeps asynchronous operations pending as long as the streams allow. Calls which release an object never fail.',
                 bounds='sequences of 4 (6 thorough) allocator operations over 6 arenas, 3 (4) operations on two device images out of 19, on values and arrays, 3 (4) device management operations on two devices out of 12; every CUDA call failing in all functions with and without prepared memory and in device management; grids of 96 kinds of devices with all block sizes for 1 to 3 dimensions of 14 sizes; transforms of all shapes up to 6x6 (9x9), filters of all shapes up to 8x8 (11x11).', **CUDA)],
    'C32': [enum('x11', lib=['src/ui/ui.cpp', 'src/ui/x11/*.cpp'], harness=['harness/ui/x11.cpp'], libs=['-lpthread'],
                 technique='exhaustive enumeration of operation sequences on the real window code against a model of its contents, on a stand-in X server that keeps the contents of windows',
                 note='The Xlib functions are replaced; a point is a mark which covers its pixel and at most the neighbouring ones. The window for Windows cannot be compiled here.',
                 bounds='sequences of 3 (4 thorough) operations out of 14 (show with three scripts of events, seven images, four points) from seven initial images; histograms of up to 5 columns over 13 values of three types.')],
    'C33': [enum('qt', lib=['src/ui/ui.cpp', 'src/ui/qt/*.cpp'], harness=['harness/ui/qt.cpp'], libs=['-lpthread', '-lQt5Widgets', '-lQt5Gui', '-lQt5Core'],
                 include=['-fPIC', '-DQT_WIDGETS_LIB', '-DQT_GUI_LIB', '-DQT_CORE_LIB'] + ['-I/usr/include/x86_64-linux-gnu/qt5' + d for d in ('', '/QtWidgets', '/QtGui', '/QtCore')],
                 technique='exhaustive enumeration of operation sequences and of all small shapes on the real window code against a model of its contents, painted by the offscreen platform of Qt',
                 note='The widget of the window is found through the application; what a user sees is what Qt paints for it.',
                 bounds='sequences of 3 (4 thorough) operations out of 20 (show, close, ten images, eight shapes) from ten initial images; images of 20 widths, 4 heights, 6 alignments; points, lines and rectangles on all positions of a 11x10 grid, ellipses with 42 pairs of radii.')],
    'C36': [enum('winui', lib=['src/ui/ui.cpp'], harness=['harness/ui/win.cpp'], include=['-I' + os.path.join(HERE, 'harness', 'ui', 'win')], libs=['-lpthread'],
                 technique='exhaustive enumeration of operation sequences and of all small shapes on the real window code against a model of its contents, on a stand-in of the Windows API that keeps the contents of windows',
                 note='The functions of the Windows API are replaced, so the code is compiled with the declarations of harness/ui/win/windows.h; shapes may be thicker than a pixel or miss their place by one where the window is scaled.',
                 bounds='sequences of 3 (4 thorough) operations out of 20 (show with three scripts of user actions, ten images, seven shapes) from ten initial images, also on a screen smaller than some images, and 2 (3) in a window which cannot become narrow; images up to 9x9 with 3 alignments, 100 sizes on a screen of 21x17 pixels, points, lines and rectangles on all positions of a 11x10 grid, ellipses with 36 pairs of radii; 256 orders of showing and destroying two windows.')],
    'C34': [enum('python', lib=['src/file/bmp_image.cpp', 'src/image_function.cpp', 'src/image_function_helper.cpp'], swig='src/python/penguinV.i', harness=['harness/python/host.cpp'],
                 include=['-I/usr/include/python3.12'], libs=['-lpython3.12', '-lpthread'],
                 technique='exhaustive enumeration of operation sequences, of all regions of small images and of all combinations of argument values on the generated binding inside of a python interpreter, against models',
                 note='The binding is generated by swig from the current tree. Objects of the library are counted, so every object which python forgets is noticed.',
                 bounds='sequences of 3 (4 thorough) out of 25 operations on two images from four initial images; all regions of 97 images for every form of ConvertToGrayScale, Threshold, Histogram, Load and Save; 27 values on up to 3 (4 thorough) arguments of every function and on every pair of arguments of longer forms.')],
    'C30': [enum('oclmem', lib=OPENCL_LIB, libs=['-lpthread', '-lOpenCL', '-ldl'], harness=['harness/opencl/memory.cpp'],
                 technique='exhaustive enumeration of operation sequences on the real code against value models; bounded exhaustive fault injection: every call to OpenCL fails once during every operation',
                 note='All calls of the library to OpenCL are intercepted, so every device object is followed from its creation to its release.',
                 bounds='sequences of 4 (6 thorough) allocator operations over 6 arenas, 3 (4) operations on two device images out of 19, on values and arrays, 3 (4) device management operations out of 9; every OpenCL call failing in 31 operations with and without prepared memory and in 4 kinds of initialisation; programs from files of 40 lengths; 900 sizes above the countable number of bytes; images of 4 wider types.')],
    'C35': [sched('poolfail', args=['C35'], **dict(POOL, technique='bounded exhaustive fault injection combined with ' + SCHED_TECH,
                  note='Every single refusal of a thread and every single failing memory request of an operation, each under every interleaving within the preemption bound.'),
                  bounds='construction with 1-3 threads, resizing from 0-2 to 1-3 threads followed by destruction, another resize, or stop and another resize, with and without waiting tasks; submissions of 1-3 tasks with and without another provider; thread creations 0..2 and memory requests 0..9; preemption bound 1-2.'),
            sched('callersfail', args=['C35'], harness=['harness/sched/callers.cpp'], lib=['src/function_pool*.cpp', 'src/thread_pool*.cpp', 'src/image_function*.cpp', 'src/penguinv/*.cpp'], technique=SCHED_TECH, note='',
                  bounds='28 operations of Function_Pool with each of the first 32 memory requests of the caller and 6 of a worker failing; 1 worker (2 thorough), preemption bound 1.')],
}

NOT_APPLICABLE = {}


def by_name(name):
    for cs in CHECKS.values():
        for c in cs:
            if c['name'] == name:
                return c
    raise KeyError(name)
