#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept here because long JSON lines are unpleasant to edit).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'Thread pool runs every task exactly once and waiting is a barrier',
  'When a task provider hands N tasks to a thread pool, each task id 0..N-1 is executed exactly once, and a wait on the provider returns only after all N tasks have finished. '
  'The wait reports failure if and only if at least one of those tasks threw an exception, and that report does not leak into the next run of the same provider. '
  'This holds for every number of worker threads, for several providers sharing one pool, and for providers that are run repeatedly.',
  ['schedules', 'histories'], 'all interleavings of worker threads, submitting threads and waiters; all task counts, worker counts and which tasks throw',
  'No unit test uses the pool at all; the function pool tests run a handful of schedules chosen by the operating system.',
  ['src/thread_pool.h', 'src/thread_pool.cpp'],
  [('AbstractTaskProvider::_taskRun / _wait', 'src/thread_pool.cpp'), ('ThreadPool::add / _workerThread', 'src/thread_pool.cpp')],
  [('given / completed task counters', 'how many task ids were handed out and finished', 'src/thread_pool.h'), ('task queue', 'one entry per pending task', 'src/thread_pool.h')])

prop('C02', 'Thread pool lifecycle operations never leave anybody blocked',
  'Whatever sequence of resize, clear, stop, remove, destroy and restart is applied to a thread pool while providers have queued or running tasks, every one of these calls returns and every wait on a provider returns: there is no deadlock and no lost wake-up. '
  'A pool that was stopped or shrunk and is resized again executes newly submitted tasks with the requested number of threads. '
  'Tasks dropped by clear, stop or destruction are never executed afterwards, and dropping them does not execute any task.',
  ['schedules', 'histories'], 'all sequences of pool lifecycle operations up to a depth, at every point of every interleaving with the workers',
  'Resize, clear, stop and destruction with pending tasks are not exercised by any test; deadlocks need particular interleavings.',
  ['src/thread_pool.h', 'src/thread_pool.cpp'],
  [('ThreadPool::resize / clear / stop / remove / destructor', 'src/thread_pool.cpp'), ('provider destructor', 'src/thread_pool.cpp')],
  [('per-thread run and exit indicators', 'whether a worker should look for work or leave', 'src/thread_pool.h')])

prop('C03', 'Thread pool has no data race and no use of dead objects',
  'Under every interleaving of supported use (submitting from several threads, waiting, resizing, stopping, destroying providers after their wait returned) the pool and its providers perform no two conflicting unsynchronised memory accesses and never touch a provider, worker record or queue entry that has already been destroyed. '
  'In particular a provider may be destroyed or rerun as soon as its wait returned.',
  ['schedules'], 'all interleavings; every memory access of the pool and provider code',
  'A race or use-after-free only shows under rare schedules and usually without visible effect; tests run without a controlled scheduler.',
  ['src/thread_pool.h', 'src/thread_pool.cpp'],
  [('mutex protected queue and flags, atomic counters', 'src/thread_pool.h')])

prop('C04', 'Function pool results equal the serial functions',
  'For every operation offered by the multithreaded function pool, the outputs, return values and accepted or rejected arguments are the same as those of the single-threaded function of the same name, for every image shape, region of interest and number of colour channels, no matter how many worker threads the global pool has. '
  'The work is split so that every pixel of the region is processed exactly once and nothing outside it is touched.',
  ['inputs', 'configurations'], 'all image sizes, ROI positions, channel counts, pixel values and worker thread counts',
  'Tests use mostly uniform images and the default thread count, so chunk boundaries, uneven splits and column splits are hardly observed.',
  ['src/function_pool.cpp', 'src/function_pool.h', 'src/function_pool_task.cpp', 'src/function_pool_task.h'],
  [('region partition', 'src/function_pool_task.cpp'), ('per-function tasks and result merging', 'src/function_pool.cpp')])

prop('C05', 'Concurrent function pool callers do not affect each other',
  'Any number of threads may call function pool operations at the same time on the shared global pool, and each caller gets exactly the result it would get alone, under every interleaving. '
  'The call returns only when all its chunks are done, and an error in a chunk is reported as an exception to the caller whose call it was and to no other.',
  ['schedules'], 'all interleavings of two callers and the worker threads',
  'Existing tests call function pool operations from one thread only and under uncontrolled schedules.',
  ['src/function_pool.cpp', 'src/function_pool_task.cpp', 'src/thread_pool.cpp'],
  [('FunctionPoolTask::_processTask', 'src/function_pool_task.cpp'), ('global pool', 'src/thread_pool.cpp')])

prop('C06', 'Memory allocator hands out disjoint, aligned, fully reusable memory',
  'Blocks that are allocated at the same time never overlap each other, are large enough for the request, suitably aligned for vector instructions, and their content is only changed by their owner. '
  'Once everything is freed the whole preallocated arena is available again in one piece; requests that do not fit the arena are still served or fail with an exception, after which the allocator is still usable. '
  'This holds for any order of allocate, free and reserve calls, and for allocations and frees made by several threads at once.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of allocations, frees and reserves up to a depth, all request sizes around size classes, all interleavings of two threads, heap exhaustion',
  'No test allocates beyond simple images; the buddy-style splitting and merging is never checked for overlap or full coalescing.',
  ['src/memory/memory_allocator.h', 'src/memory/cpu_memory.h'],
  [('level split / merge', 'src/memory/memory_allocator.h'), ('CPU arena with heap fallback', 'src/memory/cpu_memory.h')],
  [('free lists per level', 'offsets of free chunks of each power-of-two size', 'src/memory/memory_allocator.h')])

prop('C07', 'Images behave as values with consistent geometry',
  'An image is a value: copying, assigning, self-assigning, moving, swapping, resizing, clearing, filling, re-aligning, mutating and externally assigning it in any order gives each image exactly the width, height, channel count, row size, type and pixel contents that the operations imply, without altering any other image and without leaking, double-freeing or accessing foreign memory. '
  'The row size always covers width times channels, is a multiple of the alignment, and a requested size whose memory cannot be represented is refused with an exception instead of producing an undersized image.',
  ['histories', 'inputs'], 'all sequences of container operations over several images up to a depth; all sizes including those near the 32-bit limit',
  'Unit tests only check a few constructors and copies of small images.',
  ['src/image_buffer.h'],
  [('ImageTemplate copy / move / assign / mutate / setters', 'src/image_buffer.h')],
  [('width, height, colour count, row size, alignment, data pointer', 'geometry and ownership of pixel memory', 'src/image_buffer.h')])

prop('C08', 'Invalid arguments are rejected before anything is modified',
  'Every image processing function rejects an empty image, an empty or out-of-bounds region of interest (including regions whose position plus size exceeds 32 bits), mismatching sizes, mismatching or unsupported channel counts and out-of-domain parameters by throwing the library exception. '
  'A call that throws has not modified any of its image arguments, and a call whose arguments are valid does not throw.',
  ['inputs'], 'all combinations of ROI position and size from a boundary set for each image argument, all channel count combinations, all functions on all code paths (plain, vectorised, pooled)',
  'Tests probe a few random invalid regions for some functions; integer wrap-around and channel mismatch combinations are not covered.',
  ['src/parameter_validation.h', 'src/image_function.cpp', 'src/image_function_helper.cpp', 'src/image_function_simd.cpp', 'src/function_pool.cpp', 'src/filtering.cpp'],
  [('ValidateImageParameters family', 'src/parameter_validation.h')])

prop('C09', 'Functions touch only the requested regions',
  'A successful call of an image processing function writes only to the bytes of the region of interest of its output image: pixels outside the region, row padding and all input images stay unchanged. '
  'It reads no memory outside the images it was given, and its result depends only on the pixels of the requested input regions (for sub-pixel shift and the gradient filters also on the pixels next to them, which their definition uses).',
  ['inputs'], 'all small image shapes, strides, ROI placements and channel counts for every function on plain and vectorised code paths',
  'Unit tests verify results inside the region on mostly uniform images and never look at the bytes around it.',
  ['src/image_function.cpp', 'src/image_function_simd.cpp', 'src/filtering.cpp', 'src/image_function_helper.cpp'],
  [('row by row pointer arithmetic and ROI optimisation', 'src/parameter_validation.h, src/image_function.cpp')])

prop('C10', 'Pixel-wise operations compute their mathematical definition',
  'Absolute difference, bitwise and/or/xor, invert, maximum, minimum, saturating subtraction, thresholding with one or two levels, gamma correction, lookup table and fill produce, for each pixel of the region, exactly the value given by their definition on the corresponding input pixels, for all 8-bit values.',
  ['inputs'], 'all pairs of 8-bit values, all positions in a row, all thresholds, all single and multi-channel images',
  'Tests use images of one constant value per call, so only a few of the 65536 value pairs and no position dependence are observed.',
  ['src/image_function.cpp', 'src/image_function_simd.cpp', 'src/image_function_helper.cpp'],
  [('per-pixel loops and vector kernels', 'src/image_function.cpp, src/image_function_simd.cpp')])

prop('C11', 'Geometric operations move pixels to the right place',
  'Copy, flip, transpose, resize, sub-pixel shift and rotation place at each output pixel the value their definition prescribes (mirrored, transposed, nearest scaled, bilinearly interpolated at the shifted position, or sampled at the rotated position) for every shape, scale, offset, angle and channel count they accept. '
  'Flipping or transposing twice gives back the original, and shifting or rotating by zero is a copy; pixels whose source lies outside the image are set to zero by shift, and pixels whose four source pixels are not all inside the source region are set to zero by rotation.',
  ['inputs'], 'all small shapes, ROI placements, scales, shifts on a sub-pixel grid and rotation angles',
  'Tests use uniform images, for which moving pixels is invisible; shift and rotate have no test.',
  ['src/image_function.cpp', 'src/image_function_simd.cpp', 'src/image_function_helper.cpp'],
  [('Copy/Flip/Transpose/Resize/Shift/Rotate', 'src/image_function.cpp')])

prop('C12', 'Channel, colour and bit-depth conversions follow their definition',
  'Channel extraction, merge and split, conversion between grey, RGB and RGBA, RGB/BGR swap and conversion between 8 and 16 bit keep every pixel at its place and map every channel value as defined; merge inverts split, swapping twice is the identity, and 8 to 16 to 8 bit is the identity. '
  'This holds for any region of interest and for every channel combination the functions accept.',
  ['inputs'], 'all channel values, all small shapes and ROI placements, all channel count combinations',
  'Tests use uniform images, full-colour regions at channel-aligned positions, and check only one channel value per image.',
  ['src/image_function.cpp', 'src/image_function_simd.cpp', 'src/image_function_helper.cpp'],
  [('ConvertTo*, Merge, Split, ExtractChannel, RgbToBgr, RgbToRgba, RgbaToRgb', 'src/image_function.cpp')])

prop('C13', 'Image statistics are exact',
  'Sum, histogram (with and without mask), horizontal and vertical projection profile, accumulation, equality and binary tests, and histogram normalisation return exactly the value defined by the pixels of the region, with each pixel counted once at its own position. '
  'The automatic threshold computed from a histogram maximises the between-class variance of the two classes (values up to the threshold, values above it), and normalisation maps the darkest pixel to 0 and the brightest to 255.',
  ['inputs'], 'all small images over a value alphabet, all ROI placements and masks, all small histograms',
  'Tests use uniform images where misplaced counts cancel out.',
  ['src/image_function.cpp', 'src/image_function_simd.cpp', 'src/image_function_helper.cpp'],
  [('Sum/Histogram/ProjectionProfile/Accumulate/IsEqual/GetThreshold/Normalize', 'src/image_function.cpp')])

prop('C14', 'Every instruction set gives the same result as plain code',
  'Whichever vector instruction set is active (AVX-512, AVX2, SSE or none, and any switching between them at run time), every accelerated function gives bit-identical results, the same exceptions and the same untouched surroundings as the plain implementation. '
  'An instruction set which is disabled or which the processor lacks is never used.',
  ['inputs', 'configurations'], 'all enable/disable configurations; all row widths around vector block boundaries and all start offsets; position-dependent data',
  'Tests run each instruction set on uniform images, so lane order and tail handling errors are invisible.',
  ['src/image_function_simd.cpp', 'src/image_function_simd.h', 'src/penguinv/cpu_identification.h'],
  [('avx512 / avx / sse / neon kernels and dispatch', 'src/image_function_simd.cpp')])

prop('C15', 'All forms of a function agree',
  'Each function exists in several forms (returning a new image or writing into a given one, whole image or region, with or without explicit offsets; in the plain, vectorised, pooled and automatically dispatched interfaces), and all forms give the same pixels and the same accept or reject decision for the same data. '
  'Forms that create their output give it the right size and channel count.',
  ['inputs', 'programs'], 'all functions, all forms, all small shapes and channel counts',
  'Tests call forms separately on uniform data and never compare forms with each other; colour inputs to returning forms are rarely used.',
  ['src/image_function_helper.cpp', 'src/image_function_helper.h', 'src/image_function.cpp', 'src/function_pool.cpp', 'src/penguinv/penguinv.cpp'],
  [('form delegation', 'src/image_function_helper.cpp')])

prop('C16', 'Automatic dispatch runs the right backend and converts images',
  'A call through the automatically dispatched interface runs the implementation registered for the type of its images and gives the same result as calling that implementation directly; an operation a backend lacks is refused with an exception. '
  'When automatic type conversion is enabled and an operation is executed on another backend, the inputs are converted to and the outputs converted back from that type so that the caller sees the correct result in images of their original type; an implementation is never given images of another type, and what cannot be converted is refused with an exception.',
  ['configurations', 'histories'], 'all assignments of two or three image types to the arguments of every dispatched function, all registration subsets, conversion on and off',
  'On the test machine only one image type exists in the plain test suite, so registration, refusal and conversion paths never run.',
  ['src/penguinv/penguinv.cpp', 'src/penguinv/penguinv.h', 'src/penguinv/image_manager.h', 'src/image_function_helper.h'],
  [('ImageTypeManager', 'src/penguinv/penguinv.cpp'), ('ImageManager input/output conversion', 'src/penguinv/image_manager.h')])

prop('C17', 'Morphology and neighbourhood filters match their definition',
  'Median, Prewitt and Sobel filtering, the Gaussian kernel and binary erosion and dilation give at each pixel exactly the value defined by the neighbourhood of that pixel: the median of the window, the rounded gradient magnitude scaled to 0..255, weights proportional to exp(-r^2 / (2 sigma)) that sum to 1, and for images of 0 and 255 the minimum or maximum over the structuring window. '
  'Median copies the pixels whose window does not fit the region, the gradient filters give 0 at the image border, and morphology cuts its window at the border of the region and limits its half-size to half of the region.',
  ['inputs'], 'all small images over a value alphabet, all ROI placements, all odd kernel sizes and dilation sizes that fit',
  'Filters are only timed by performance tests or checked on uniform images; morphology is not tested.',
  ['src/filtering.cpp', 'src/filtering.h', 'src/image_function.cpp'],
  [('Median/Prewitt/Sobel/GetGaussianKernel', 'src/filtering.cpp'), ('BinaryDilate/BinaryErode', 'src/image_function.cpp')])

prop('C18', 'Blob detection finds exactly the connected regions',
  'Blob detection partitions the pixels of the requested region which are not below the threshold into exactly their 8-connected components, each reported once with all its pixels in image coordinates, its edge (all pixels having a neighbour outside of the component or region) and its contour (the edge pixels connected with the outer boundary). '
  'The partition does not depend on pixel values, on the position of the region or on anything outside it.',
  ['inputs'], 'all binary images up to a size, all ROI placements, all marker values',
  'Tests detect a single rectangle or random separate rectangles; touching, nested, spiral and diagonal shapes are not enumerated.',
  ['src/blob_detection.cpp', 'src/blob_detection.h'],
  [('BlobDetection::find and contour/edge tracing', 'src/blob_detection.cpp')])

prop('C19', 'Blob measurements and selection are correct',
  'Area, centre, width, height, length, elongation and circularity of a blob equal the values defined by its pixels. '
  'Filtering by parameter ranges keeps exactly the blobs inside all given ranges, sorting (biggest value first) and best-blob selection order them by the chosen measure when it was calculated, and an inverted range is refused.',
  ['inputs'], 'all blobs that fit a small grid, all parameter combinations and bounds from a boundary set',
  'Tests check a few values on rectangles, where several wrong formulas coincide with the right one.',
  ['src/blob_detection.cpp', 'src/blob_detection.h'],
  [('BlobInfo getters', 'src/blob_detection.cpp'), ('BlobParameters verify / BlobDetection sort, getBestBlobs', 'src/blob_detection.cpp')])

prop('C20', 'Edge detection reports exactly the qualifying transitions',
  'For every scan direction, edge polarity, number of edges to report, grouping, skipping and contrast setting, edge detection reports exactly the brightness transitions of each scanned line that satisfy the criteria, in the order and polarity requested, at the position given by the sub-pixel gradient maximum inside the region of interest. '
  'Mirroring or transposing the image mirrors or transposes the result, invalid parameters are refused, and no parameter value causes access outside the image.',
  ['inputs'], 'all one-dimensional profiles over a value alphabet up to a length, all parameter combinations from a boundary set, all directions',
  'Tests use one vertical step in a uniform image with default parameters.',
  ['src/edge_detection.cpp', 'src/edge_detection.h'],
  [('EdgeDetection::find and derivative scan', 'src/edge_detection.cpp'), ('EdgeParameter::verify', 'src/edge_detection.cpp')])

prop('C21', 'Fourier transform is correct and invertible',
  'The direct transform of an image or complex array equals the discrete Fourier transform of its values within floating-point accuracy for every width and height, the inverse transform gives the original back, and multiplying transforms realises circular convolution as documented. '
  'Images put into a complex container come back unchanged, and every container operation refuses mismatching sizes.',
  ['inputs', 'histories'], 'all widths and heights up to a bound including odd and non-square ones, all unit impulse inputs (a basis of the linear map)',
  'Tests use square power-of-two random images only and only check round trips.',
  ['src/fft.cpp', 'src/fft.h', 'src/math/fft_base.h', 'src/math/fft_base.cpp'],
  [('FFTExecutor / ComplexData', 'src/fft.cpp')])

prop('C22', 'Geometry and matrix mathematics is correct',
  'Points, lines and matrices follow plane geometry: distances, projections, parallelism, intersections and opposite sides are right for every pair of lines including vertical, horizontal and coincident ones, comparisons are consistent equivalence relations, and solving a linear system returns the solution whenever one exists uniquely. '
  'The Haar transform is orthogonal and its inverse reproduces the input for every size it accepts.',
  ['inputs'], 'all points and lines on a small integer grid, all small integer matrices, all small signals',
  'Tests use a few random samples; degenerate configurations are not enumerated.',
  ['src/math/math_base.h', 'src/math/math_base.cpp', 'src/math/haar_transform.cpp', 'src/math/haar_transform.h'],
  [('PointBase2D/3D, LineBase2D, getMatrixRoots', 'src/math/math_base.h'), ('Haar transform', 'src/math/haar_transform.cpp')])

prop('C23', 'Line extraction splits points without loss and finds the best line',
  'Hough line extraction divides the given points into on-line and off-line points without losing, inventing or duplicating any, keeping their order; all on-line points lie within the given tolerance of one common line whose angle is inside the requested range. '
  'No angle of the scanned set has a line with more points within tolerance, and a request that cannot be answered is refused without touching the outputs.',
  ['inputs'], 'all point sets up to a size on a small grid, all angle settings from a set, all tolerances from a set',
  'Tests generate one random line with noise and only check that enough points are found.',
  ['src/math/hough_transform.cpp', 'src/math/hough_transform.h'],
  [('Image_Function line search over angles', 'src/math/hough_transform.cpp')])

prop('C24', 'Light correction equalises what it was calibrated on',
  'After calibration on an image, correcting that same image makes every usable pixel of the region (not 0 or 255) equal to the brightest usable value, other images are scaled by the same ratios up to 255, and nothing divides by zero. '
  'A correction applied before a successful calibration, or to an image or region the calibration does not cover, is refused without touching memory outside the image or changing it.',
  ['inputs', 'histories'], 'all small images over a value alphabet, all region placements, all sequences of analyse (successful or refused) and correct calls',
  'Light correction has no test.',
  ['src/tool/light_correction.cpp', 'src/tool/light_correction.h'],
  [('LightCorrection::analyze / correct / findIncorrectPixels', 'src/tool/light_correction.cpp')])

prop('C25', 'Saved images load back identically',
  'Saving an image or a region of it and loading the file gives an image with the same size, channel count and pixels for every size, channel count and row alignment the lossless format accepts (BMP, PNG, raw); for JPEG the size, channel count, region and channel order are kept and pixels are close, and the quality which was set is used. '
  'A file saved successfully is a valid file of its format which other readers understand in the same way, and is always loadable; saving does not modify the image, and an image the format cannot store is refused.',
  ['inputs', 'configurations'], 'all widths and heights up to a bound, all channel counts, all alignments, all ROI placements, all formats',
  'Tests save a few uniform random-size images in the default alignment.',
  ['src/file/bmp_image.cpp', 'src/file/png_image.cpp', 'src/file/jpeg_image.cpp', 'src/file/raw_image.h', 'src/file/file_image.cpp'],
  [('Load/Save per format', 'src/file')])

prop('C26', 'Damaged image files never crash the loader',
  'Loading any file, whether truncated at any byte, with any header field changed, empty, missing or of a foreign format, ends in finite time either with the image it really describes, with an empty image, or with the library exception. '
  'It never terminates or hangs the process, reads or writes outside its buffers, leaks memory or returns an image whose pixels were not in the file (missing parts of JPEG data are completed by its decoder).',
  ['inputs', 'fault_sequences'], 'every truncation point and every single-byte change (over a boundary set of values) of small valid files of every format, and boundary values of every header field',
  'Tests load only files written by the library itself.',
  ['src/file/bmp_image.cpp', 'src/file/png_image.cpp', 'src/file/jpeg_image.cpp', 'src/file/raw_image.h', 'src/file/file_image.cpp'],
  [('header parsing and length checks', 'src/file/bmp_image.cpp')])

prop('C27', 'A failed save is reported',
  'If the operating system cannot store the complete file (no space, write error at any byte, unwritable path), saving throws the library exception rather than returning normally. '
  'A save that returned normally has left a complete, loadable file.',
  ['fault_sequences', 'crash_points'], 'a write failure at every byte position of the output file, for every format',
  'Tests only write to a healthy file system.',
  ['src/file/bmp_image.cpp', 'src/file/png_image.cpp', 'src/file/jpeg_image.cpp', 'src/file/raw_image.h'],
  [('stream state checks', 'src/file')])

prop('C28', 'OpenCL backend computes the same as the CPU backend',
  'Every function of the OpenCL backend gives the same result as the CPU function of the same name for every image shape, region of interest, channel count and parameter, and image transfers between host and device memory preserve all pixels. '
  'It rejects the same invalid arguments and leaves everything outside of the region of interest untouched.',
  ['inputs', 'configurations'], 'all small shapes, ROI placements, channel counts and parameters, with position-dependent data',
  'OpenCL unit tests use uniform images of one channel.',
  ['src/opencl/image_function_opencl.cpp', 'src/opencl/opencl_helper.cpp', 'src/opencl/opencl_memory.h', 'src/opencl/opencl_device.cpp', 'src/opencl/image_buffer_opencl.h'],
  [('kernels and host wrappers', 'src/opencl/image_function_opencl.cpp')])

prop('C29', 'CUDA backend computes the same as the CPU backend',
  'Every function of the CUDA backend gives the same result as the CPU function of the same name for every image shape, region of interest, channel count and parameter, whatever the number of threads per block and whether a stream is used, and image transfers between host and device memory preserve all pixels. '
  'It rejects the same invalid arguments and leaves everything outside of the region of interest untouched; no kernel reads or writes memory which is not a part of its images, and the result does not depend on the order of threads.',
  ['inputs', 'configurations', 'schedules'], 'all small shapes, ROI placements, channel counts and parameters, with position-dependent data',
  'CUDA tests need a GPU and use uniform images.',
  ['src/cuda/image_function_cuda.cu', 'src/cuda/image_function_cuda.cuh', 'src/cuda/cuda_helper.cu', 'src/cuda/cuda_memory.cuh', 'src/cuda/image_buffer_cuda.cuh'],
  [('kernels and host wrappers', 'src/cuda/image_function_cuda.cu')])

prop('C30', 'OpenCL device memory, device management and failures',
  'Device memory blocks in use are as big as requested and never overlap, whatever the sequence of allocations, releases and reservations. Device images, values and arrays behave as values through every sequence of copies, assignments, moves, swaps and resizes. '
  'A device can be closed and initialized again and its functions keep working; devices and queues which do not exist are refused. '
  'Every failure of a call to OpenCL is reported by an exception, leaves inputs unchanged and images, arrays and devices usable, and no device object (buffer, kernel, program, event, queue, context) is left behind or released twice.',
  ['histories', 'fault_sequences'], 'all short sequences of allocator, image, array and device operations; a failure of every single OpenCL call',
  'tests allocate random sizes, and no OpenCL call fails in them.',
  ['src/opencl/opencl_memory.h', 'src/opencl/opencl_device.cpp', 'src/opencl/opencl_types.h', 'src/opencl/image_buffer_opencl.h', 'src/opencl/opencl_helper.cpp', 'src/image_buffer.h'],
  [('device memory', 'src/opencl/opencl_memory.h'), ('device management', 'src/opencl/opencl_device.cpp'), ('values and arrays', 'src/opencl/opencl_types.h')])

prop('C31', 'CUDA device memory, device management, transforms and failures',
  'Device memory blocks in use are as big as requested and never overlap, whatever the sequence of allocations, releases and reservations. Device and pinned images, values and arrays behave as values through every sequence of copies, assignments, moves, swaps and resizes. '
  'A device can be closed and initialized again without changing which device is active, and streams are created and released as requested. The grid of every kernel covers the requested size within the limits of the device. '
  'Fourier transforms, complex products and filtering on the device match their definitions for every shape. '
  'Every failure of a call to CUDA is reported by an exception exactly once, leaves inputs unchanged and images, arrays and devices usable, and no device object (buffer, stream, transform plan) is left behind or released twice.',
  ['histories', 'fault_sequences', 'inputs'], 'all short sequences of allocator, image, array and device operations; a failure of every single CUDA call; all small shapes of transforms',
  'CUDA tests need a GPU, allocate random sizes and no CUDA call fails in them.',
  ['src/cuda/cuda_memory.cuh', 'src/cuda/cuda_device.cu', 'src/cuda/cuda_types.cuh', 'src/cuda/image_buffer_cuda.cuh', 'src/cuda/image_buffer_cuda_pinned.cuh', 'src/cuda/cuda_helper.cu', 'src/cuda/cuda_fft.cu', 'src/cuda/filtering_cuda.cu', 'src/math/fft_base.h'],
  [('device memory', 'src/cuda/cuda_memory.cuh'), ('device management', 'src/cuda/cuda_device.cu'), ('transforms', 'src/cuda/cuda_fft.cu'), ('grids', 'src/cuda/cuda_helper.cu')])

prop('C32', 'X11 windows show their image, points and histograms',
  'A window of X11 (UiWindowX11) shows the image it was created with or set last, pixel by pixel, for gray-scale and colour images of any size and row padding, after every exposure and with all points drawn so far on top of it; nothing is drawn before it is shown, and showing it returns when the user closes it. '
  'Images which cannot be displayed are refused. No display resource (connection, window, graphics context, image) is left behind, released twice or used after its release. '
  'A displayed histogram has for every value a column with height proportional to its count, the highest being as high as the image.',
  ['inputs', 'histories'], 'all small images with position-dependent data, all short sequences of window operations and events',
  'tests never open a window, because this needs a display.',
  ['src/ui/ui.cpp', 'src/ui/ui.h', 'src/ui/x11/x11_ui.cpp', 'src/ui/x11/x11_ui.h', 'src/tool/ui/tool_ui.h', 'src/tool/ui/tool_ui.cpp'],
  [('window', 'src/ui/x11/x11_ui.cpp')])

prop('C33', 'Qt windows show their image and what is drawn on it',
  'A window of Qt (UiWindowQt) shows, once it was shown, the image it was created with or set last, pixel by pixel, for gray-scale and colour images of any size and row padding; setting another image replaces the picture. '
  'Colour images appear in their colours: the library keeps pixels of loaded images in the order blue, green, red. Points, lines, ellipses and rectangles are drawn onto the current picture at their place, in their colour and with '
  'their transparency, completely, and change no other pixel. The window has the given title, keeps no reference to the memory of the image, and nothing is visible before it is shown. Images which are neither gray-scale nor of 3 channels are refused with an exception and '
  'change nothing. No widget is left after its destruction.',
  ['inputs', 'histories'], 'all small images with position-dependent data, all short sequences of window operations, all shapes on a small grid',
  'tests only compile the window: they have no display.',
  ['src/ui/ui.cpp', 'src/ui/ui.h', 'src/ui/qt/qt_ui.cpp', 'src/ui/qt/qt_ui.h'],
  [('window', 'src/ui/qt/qt_ui.cpp')])

prop('C34', 'The Python binding does what the library does and never ends the interpreter',
  'Images and functions of the Python module (Image, ConvertToGrayScale, Threshold, Histogram, GetThreshold, Load, Save, vectorUInt32) have in every form the results and effects of the C++ functions: every sequence of operations on images '
  'leaves their geometry and pixels as the operations define, images own their pixels independently of the life of other objects, results of functions are right on every region, and outputs change only inside of the region. '
  'Every call with arguments of wrong number, type, range or meaning raises a Python exception; no call ends the process, takes arguments of a wrong type or number, or loses objects of the library.',
  ['inputs', 'histories'], 'all short sequences of operations on two images, all regions of small images, all small combinations of argument values of every kind',
  'tests only compile the generated wrapper; nothing in the repository calls it.',
  ['src/python/penguinV.i', 'src/image_buffer.h', 'src/image_function.cpp', 'src/file/bmp_image.cpp'],
  [('interface', 'src/python/penguinV.i')])

prop('C35', 'The thread pool survives a lack of threads and memory',
  'When the operating system refuses to create a thread, or a memory request fails, while a thread pool is constructed, resized or given tasks, or while a function of Function_Pool or one of its tasks runs, the operation either completes '
  'correctly or throws an exception. The program is never terminated and nobody is left blocked, in that operation or later: tasks submitted before are executed exactly once and their wait returns, a failed submission executes no task twice and '
  'its provider can wait, be destroyed or run again, and a failed function of Function_Pool gives right results when it is called again. After a failed resize the pool has at least the threads it had before and fewer than requested, and it can be stopped, destroyed or resized to any number of threads which then all '
  'execute tasks. No memory is lost and no data race appears.',
  ['fault_sequences', 'schedules', 'histories'], 'every single refused thread creation and failing memory request of every operation, each under all interleavings within a preemption bound',
  'tests never run out of threads or memory.',
  ['src/thread_pool.cpp', 'src/thread_pool.h', 'src/function_pool.cpp', 'src/function_pool_task.cpp'],
  [('pool', 'src/thread_pool.cpp'), ('submission', 'src/thread_pool.cpp')])

prop('C36', 'Windows windows show their image and what is drawn on it',
  'A window of Windows (UiWindowWin) shows, whenever it is painted, the image it was created with or set last, pixel by pixel, for gray-scale and colour images (pixels in the order blue, green, red) of any size and row padding, and all points, lines, ellipses and rectangles '
  'drawn so far on top of it, completely and in their colours; where the user changes the size of the window the picture and the shapes are stretched with it, and an image bigger than the screen is reduced to fit the screen with its proportions and content kept. '
  'The window has the size of its image and the given title, nothing is displayed before it is shown, showing it waits until the user closes it and then returns, and it can be shown again, also when other windows exist or were destroyed. An empty image shows nothing. '
  'Images which cannot be displayed are refused with an exception and change nothing. No window, pen or other drawing object, nor a request to quit is left behind, released twice or used after its release.',
  ['inputs', 'histories'], 'all small images with position-dependent data, all short sequences of window operations and user actions, all shapes on a small grid',
  'tests neither compile nor open this window: it needs Windows and a display.',
  ['src/ui/ui.cpp', 'src/ui/ui.h', 'src/ui/win/win_ui.cpp', 'src/ui/win/win_ui.h'],
  [('window', 'src/ui/win/win_ui.cpp')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
