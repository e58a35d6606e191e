#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'include/libflatarray/'
SV = [L + 'short_vec.hpp', L + 'detail/short_vec_scalar_*.hpp', L + 'detail/short_vec_sse_*.hpp', L + 'detail/short_vec_avx_*.hpp', L + 'detail/short_vec_avx512_*.hpp']
GRID = [L + 'soa_grid.hpp', L + 'macros.hpp', L + 'detail/macros.hpp']

# id, title, statement, over, quantifier text, why tests can't, files, mechanism, bounds/trust note
T = []


def p(*a):
    T.append(a)


p('P01', 'Member addresses in the struct-of-arrays layout',
  'Through every kind of accessor (mutable or constant, with or without relative coordinates, with a static index, by name or by raw member access), member m of the cell at index i is found at data + (cells in the layout) * (sum of the sizes of the members registered before m) + i * sizeof(m), and element k of an array member lies (cells in the layout) * k * sizeof(element) behind element 0. Relative coordinates (x, y, z) move by x + DIM_X * y + DIM_X * DIM_Y * z cells, stepping an accessor moves it by exactly the given number of cells, and two accessors compare equal exactly if they share data and index.',
  ['inputs', 'configurations'], 'all data pointers, all run time indices and steps, every registered member and array element, several grid extents, accessor kinds and cell classes',
  'Tests look at a few cells of a few layouts; an address that is wrong only for one member, neighbour or accessor kind stays unseen.',
  [L + 'macros.hpp', L + 'detail/macros.hpp', L + 'detail/offset.hpp', L + 'soa_accessor.hpp'], [('accessor classes generated by the registration macro', L + 'macros.hpp'), ('member offsets', L + 'detail/offset.hpp')])
p('P02', 'Cells written and read through accessors are copied member by member',
  'Writing a cell through an accessor changes every registered member of exactly that cell to the given values and nothing else; reading a cell through any accessor (by stream operator or conversion) yields the stored values of all its members, array elements included, and changes nothing in the grid.',
  ['inputs', 'configurations'], 'all contents, all indices, every accessor kind, relative coordinates',
  'Tests sample some members with some values; one member or array element mixed up in one accessor kind goes unnoticed.',
  [L + 'macros.hpp', L + 'detail/macros.hpp'], [('whole-cell copy macros', L + 'detail/macros.hpp')])
p('P03', 'Bulk transfers between accessors and raw buffers are exact',
  'Loading count cells from a raw buffer (with offset and stride) into the cells following an accessor, saving them to a buffer, or copying them from another accessor transfers exactly the members of those count cells, each to its own place, for every count including zero, and touches no other byte of source or destination. The buffer layout is that of a struct of arrays with the given stride, so that what was saved can be loaded again.',
  ['inputs', 'configurations'], 'all contents, indices, offsets and strides; every count up to the bound plus selected larger ones; every accessor kind and pair of kinds',
  'Tests use a few counts and layouts and do not look at bytes next to the transferred range.',
  [L + 'macros.hpp', L + 'detail/macros.hpp'], [('load/save/copy_members', L + 'macros.hpp')])
p('P04', 'Run time dimensions select the smallest fitting layout',
  'For any run time dimensions the library instantiates the functor with the extents the configured size table prescribes: in every dimension (or, for uniform tables, for the largest dimension) the smallest table entry that is not smaller than the dimension. Dimensions that exceed the table, or that do not match its dimensionality, raise std::out_of_range and never run the functor; the functor gets the given data pointer and index zero.',
  ['inputs', 'configurations'], 'all 2^192 combinations of three dimensions, for the default, 1D, 2D, 3D and custom size tables',
  'Tests try a handful of dimensions; a wrong step in a table or a missing range check shows only at particular dimensions.',
  [L + 'api_traits.hpp', L + 'macros.hpp', L + 'detail/macros.hpp'], [('select_size/select_sizes', L + 'api_traits.hpp'), ('custom size macros', L + 'macros.hpp')])
p('P05', 'Cells of a grid are addressed by their coordinates',
  'Setting, broadcasting or getting one cell or a run of cells at (x, y, z) reads or writes all members of exactly the cells (x, y, z), (x + 1, y, z), ... in the layout selected for the grid, and of no others, for every grid; cells set are the cells got.',
  ['inputs', 'histories', 'configurations'], 'every grid object (any dimensions, any contents, any data pointer), all coordinates, run lengths up to the bound, uniform and non-uniform size tables',
  'Tests sample coordinates in a few grids; confusion between dimensions and extents cancels out in cubic grids.',
  GRID + [L + 'detail/set_instance_functor.hpp', L + 'detail/get_instance_functor.hpp'], [('set/get/broadcast', L + 'soa_grid.hpp'), ('instance functors', L + 'detail/set_instance_functor.hpp')])
p('P06', 'Grid regions are saved to and loaded from raw buffers faithfully',
  'Saving a run of cells, or a sequence of runs, of a grid packs the members of exactly those cells in order into the buffer (each member in an array of its own with the given total count as stride), and loading with the same arguments is the inverse; nothing else in grid or buffer changes. This holds for empty sequences, empty runs and any iterator over runs.',
  ['inputs', 'histories', 'configurations'], 'every grid object, all coordinates, sequences of up to three runs with lengths up to the bound, integer types of the runs, iterator kinds',
  'Tests use a few regions; lost offsets between runs, or stride mistakes for later members, need particular sequences.',
  GRID + [L + 'detail/load_functor.hpp', L + 'detail/save_functor.hpp', L + 'detail/simple_streak.hpp'], [('load/save', L + 'soa_grid.hpp'), ('load_functor', L + 'detail/load_functor.hpp'), ('save_functor', L + 'detail/save_functor.hpp')])
p('P07', 'A grid owns its storage and the members of its cells',
  'A grid acquires storage once, of exactly the size it reports (extents times the size of all members), constructs every member of every cell within its dimensions exactly once, destroys each of them exactly once and returns the storage with the size it was requested with. Dimensions, extents and byte size always describe the grid; fresh cells of built-in type are zero; impossible dimensions raise std::out_of_range without leaking.',
  ['inputs', 'histories', 'configurations'], 'a set of dimensions hitting every size class of the tables plus all dimensions up to 2x2x2, empty grids, refused sizes, cells with and without observable constructors',
  'Leaks, double destruction and members that are never constructed do not change the values a test reads.',
  GRID + [L + 'detail/construct_functor.hpp', L + 'detail/destroy_functor.hpp', L + 'detail/generic_destruct.hpp', L + 'detail/set_byte_size_functor.hpp'], [('init/destructor', L + 'soa_grid.hpp'), ('construct_functor', L + 'detail/construct_functor.hpp'), ('destroy_functor', L + 'detail/destroy_functor.hpp')])
p('P08', 'Resizing a grid leaves it consistent',
  'After resizing, dimensions, extents and byte size are those of a new grid of that size, all cells are usable, and no storage or member of the old size survives or is destroyed twice; resizing to and from the empty grid is included. A resize that is refused raises std::out_of_range and leaves dimensions, extents and contents as they were.',
  ['inputs', 'histories'], 'pairs of dimensions across the size classes of the tables, empty intermediate states, refused sizes',
  'Tests resize between few sizes and do not observe destroyed members or the state after a failure.',
  GRID, [('resize', L + 'soa_grid.hpp')])
p('P09', 'Copies of grids are equal and independent',
  'A copy-constructed or assigned grid has the dimensions, extents, byte size and all cell contents of its origin and shares no storage with it: changing one never shows in the other. Assignment releases what the target held, works for targets of any size, for empty grids on either side and for self-assignment, and never changes its source.',
  ['inputs', 'histories'], 'all contents, pairs of dimensions across the size classes, empty grids, self-assignment, symmetric and asymmetric callback configurations',
  'Sharing of storage, stale sizes and leaks need a specific order of operations that tests do not perform.',
  GRID + [L + 'detail/copy_functor.hpp', L + 'detail/dual_callback_helper.hpp'], [('copy constructor, operator=', L + 'soa_grid.hpp'), ('copy_functor', L + 'detail/copy_functor.hpp')])
p('P10', 'Swapping grids exchanges everything',
  'Swapping two grids, by member function or free function, exchanges dimensions, extents, byte sizes, storage and with it all contents, for grids of any and of different dimensions including empty ones; each storage block is still released exactly once with its own size.',
  ['inputs', 'histories'], 'all contents, pairs of dimensions across the size classes, empty grids',
  'A field that is not exchanged matters only if the two grids differ in exactly that field.',
  [L + 'soa_grid.hpp'], [('swap', L + 'soa_grid.hpp')])
p('P11', 'Callbacks see the grid they were called on',
  'A functor passed to a grid is run exactly once, with an accessor of the layout selected for the dimensions of that grid, its data pointer and index zero. Paired callbacks run the functor once with accessors of both grids in order; unless asymmetric callbacks are configured, grids of different dimensions are refused with std::invalid_argument before anything runs.',
  ['inputs', 'configurations'], 'every pair of grid objects (any dimensions and data pointers), const and mutable grids, stateful functors, every size table',
  'Tests pair a few equal grids; a comparison that ignores one dimension, or accessors in the wrong order, is not seen.',
  [L + 'soa_grid.hpp', L + 'detail/dual_callback_helper.hpp', L + 'api_traits.hpp'], [('callback', L + 'soa_grid.hpp'), ('dual_callback_helper', L + 'detail/dual_callback_helper.hpp')])
p('P12', 'Constant operations do not write to the grid',
  'Getting cells, saving regions, callbacks with reading functors and all size queries on a constant grid write no byte of the grid object or of its storage, so that any number of threads may use them on the same grid at once.',
  ['schedules', 'inputs'], 'every grid object, all coordinates, run lengths up to the bound; no write at all implies no data race in any schedule',
  'Writes through const_cast or mutable state are invisible to single-threaded tests.',
  [L + 'soa_grid.hpp'], [('const member functions', L + 'soa_grid.hpp')])
p('P13', 'Fixed-capacity arrays keep their elements and their count',
  'A fixed-capacity array behaves like a sequence with a count: constructors create the requested number of elements with the given value, appending adds exactly one element at the end, removing takes the last one away, clearing empties it, elements are read and written by index without touching others, and iteration visits the counted elements in order. Size, capacity and byte size follow the count; what does not fit (appending to a full array, removing from an empty one, constructing too many) raises std::out_of_range and leaves the elements as they were.',
  ['inputs', 'histories', 'configurations'], 'all element values, every count from empty to full for several capacities and cell classes',
  'Tests fill one or two arrays; off-by-one errors at the capacity or a member lost in one slot are easily missed.',
  [L + 'soa_array.hpp'], [('soa_array', L + 'soa_array.hpp')])
p('P14', 'Copies of and bulk loads into fixed-capacity arrays are exact',
  'Copying or assigning an array to one of the same or another capacity (from constant or mutable sources) gives the target the count and all elements of the source and leaves the source alone, independent of it from then on; loading a number of cells at an offset writes exactly those elements and extends the count only as far as needed. What does not fit the target raises std::out_of_range and changes neither count nor elements; exchanging two arrays swaps counts and elements.',
  ['inputs', 'histories', 'configurations'], 'all element values; every combination of counts, load counts and offsets for several pairs of capacities and cell classes',
  'The combinations of capacity, count and offset are far more than tests sample, and strides differ between capacities.',
  [L + 'soa_array.hpp', L + 'detail/soa_array_member_copy_helper.hpp'], [('copy, assignment, load', L + 'soa_array.hpp'), ('copy helper', L + 'detail/soa_array_member_copy_helper.hpp')])
p('P15', 'Members in fixed-capacity arrays are constructed and destroyed once',
  'Every member of every slot of a fixed-capacity array is constructed before its first use and destroyed exactly once, whatever operations (appending, removing, clearing, copying, loading, refused operations) happen in between.',
  ['histories'], 'histories of each operation kind and selected sequences, for several capacities',
  'Double construction or missing destruction does not show in values; it leaks or corrupts only for members that own resources.',
  [L + 'soa_array.hpp', L + 'detail/init_kernel.hpp', L + 'detail/construct_functor.hpp', L + 'detail/destroy_functor.hpp'], [('constructors and destructor', L + 'soa_array.hpp')])
p('P16', 'Growing vectors keep contents and count',
  'A run time sized vector behaves like a sequence: appending and emplacing add one element at the end across every growth step, removing takes the last away, clearing empties it, resizing and reserving keep the leading elements, and copies and assignments are equal to and independent of their origin. Its capacity is never below its count, constant and mutable callbacks see the elements in order, this holds for every size table of the class (layouts of one, two or three dimensions), and sizes beyond the size table raise std::out_of_range without losing elements.',
  ['inputs', 'histories', 'configurations'], 'all element values; every start count around the growth steps of the size table, every target count up to the table limit',
  'Loss of elements needs a particular combination of count, capacity and growth step.',
  [L + 'soa_vector.hpp', L + 'soa_grid.hpp'], [('soa_vector', L + 'soa_vector.hpp')])
p('P17', 'Growing vectors neither leak nor touch dead members',
  'Through all operations of a run time sized vector (growth, shrinking, copying, clearing, refused sizes), storage is released exactly once with the size it was requested with, members are constructed before they are assigned or read and are destroyed exactly once before their storage is released, and no write leaves the storage.',
  ['histories', 'inputs'], 'the histories of P16, with members whose life cycle is observable',
  'Assigning to members that were never constructed works by accident for built-in types, which is what tests use.',
  [L + 'soa_vector.hpp', L + 'soa_grid.hpp'], [('soa_vector', L + 'soa_vector.hpp'), ('resize', L + 'soa_grid.hpp')])
p('P18', 'Aligned allocation is aligned, in bounds and returns its chunk',
  'A block from the aligned allocator starts at a multiple of the alignment, lies completely within the chunk obtained from the heap for every element type and count, and all bookkeeping is kept within that chunk; releasing the block, through any instance of the allocator, returns exactly that chunk to the heap.',
  ['inputs', 'configurations'], 'every request size, every position of the heap chunk relative to the alignment (in steps of 16 bytes), alignments 1 to 4096, several element types',
  'Which padding is needed depends on where the heap happens to place the chunk; tests see a few placements.',
  [L + 'aligned_allocator.hpp'], [('allocate/deallocate', L + 'aligned_allocator.hpp')])
p('P19', 'Vector addition, subtraction and multiplication act lane by lane',
  'For every element type, vector width and instruction set, adding, subtracting and multiplying vectors (also in place, also with itself, also with scalars) gives in each lane exactly the result of the scalar operation on that lane, and leaves the operands alone.',
  ['inputs', 'configurations'], 'all lane values, float/double/int, widths 1 to 32, scalar, SSE2, SSE4.1, AVX, AVX2 and AVX-512 code paths',
  'Tests use a few values on the instruction set of the build machine; wide vectors are built from several registers of which one may be wrong.',
  SV, [('arithmetic operators', L + 'detail/short_vec_*.hpp')])
p('P20', 'Vector division and square root act lane by lane',
  'For every element type, vector width and instruction set, dividing vectors gives in each lane the quotient of that lane (integer quotients truncated towards zero, floating point quotients within 0.06 % for float and 1e-9 for double), square roots are those of the lane, and dividing by a square root is the same within these tolerances, in place or not.',
  ['inputs', 'configurations'], 'all lane values up to the stated relative error (integers: magnitudes a float represents exactly), all types, widths and instruction sets',
  'As for the other operations; besides, approximations with refinement steps pass tests with loose tolerances even if one register is never refined.',
  SV + [L + 'detail/short_vec_helpers.hpp', L + 'detail/sqrt_reference.hpp'], [('operator/, sqrt, sqrt_reference', L + 'detail/short_vec_*.hpp')])
p('P21', 'Vector loads and stores move exactly the lanes',
  'Loading, storing, broadcasting, default construction (zero), list construction and copying move every lane to and from its own memory position unchanged, for every type, width and instruction set, and touch nothing behind the last lane. Unaligned forms accept any address aligned for the element type; aligned and non-temporal forms demand no more than the alignment the library publishes for that vector type.',
  ['inputs', 'configurations'], 'all lane values and addresses, all types, widths and instruction sets',
  'An aligned instruction in an unaligned path faults only for particular addresses; swapped registers need distinguishable lanes.',
  SV + [L + 'alignment.hpp'], [('load, store, constructors', L + 'detail/short_vec_*.hpp'), ('published alignment', L + 'alignment.hpp')])
p('P22', 'Gather and scatter use each lane\'s own offset',
  'Gathering fills lane i with the element at the base pointer plus offset i, scattering writes lane i there, for every signed 32-bit offset, every type, width and instruction set; nothing else is read or written, and neither the base pointer nor the list of offsets needs more than element alignment (16 and 32 wide float vectors on AVX-512 excepted: they assert that the offsets are aligned to 64 bytes).',
  ['inputs', 'configurations'], 'all offsets (negative ones included) and contents; scatter with distinct offsets',
  'Tests use small non-negative offsets; offset extension and register order mistakes are invisible there.',
  SV + [L + 'detail/short_vec_helpers.hpp'], [('gather, scatter', L + 'detail/short_vec_*.hpp')])
p('P23', 'Comparisons, masks and blending agree lane by lane',
  'Comparing floating point vectors gives a mask whose lane i tells exactly whether the scalar comparison of lane i holds, NaN included; any() is true exactly if some lane is set, the lane query and the mask count agree with it, and blending replaces exactly the lanes that are set.',
  ['inputs', 'configurations'], 'all lane values (NaN, infinities, signed zeros), <, <=, ==, >, >=, all widths and instruction sets',
  'NaN and the boundary between < and <= are not sampled; mask registers differ per instruction set.',
  SV, [('comparison operators, blend, any, count_mask', L + 'short_vec.hpp')])
p('P24', 'Lane access and printing report the lanes in order',
  'Reading lane i of a vector yields the value of lane i, and printing a vector writes "[", the lanes in order separated by ", ", and "]", for every floating point type and width and instruction set (printing: all types).',
  ['inputs', 'configurations'], 'all lane values, all lanes, types, widths and instruction sets',
  'Tests print one vector per type; lane extraction differs for each lane and instruction set.',
  SV, [('operator[], operator<<', L + 'detail/short_vec_*.hpp')])
p('P25', 'Streaming vectors store the same values as ordinary ones',
  'Vectors of the streaming kind load like ordinary vectors and their stores (which bypass the cache) write exactly the lanes to their positions, for every type, width and instruction set, demanding no more than the published alignment.',
  ['inputs', 'configurations'], 'all lane values, types, widths and instruction sets',
  'Same as for loads and stores.',
  [L + 'streaming_short_vec.hpp'] + SV, [('streaming_short_vec', L + 'streaming_short_vec.hpp')])
p('P26', 'Loop peeling covers every index exactly once',
  'For every start and end, the loop peelers (macro, template macro and function) call the kernel so that every index from start up to end is processed exactly once and in order and none beyond: single steps up to the first multiple of the vector width (or the end), whole vectors starting only at multiples of the width and ending at or before the end, single steps for the rest; the counter finishes at the end, and empty or inverted ranges process nothing.',
  ['inputs', 'configurations'], 'non-negative starts and ends: every residue of start and end modulo the width in any block of the index space, ranges within up to three blocks of any start and any later end for starts in the first block; widths 1 to 8 (thorough: 32); int, unsigned, long and size_t counters, ordinary and streaming vectors',
  'Whether the ranges are right depends on both residues and on ranges shorter than a vector; tests use a few.',
  [L + 'loop_peeler.hpp', L + 'detail/sibling_short_vec_switch.hpp'], [('LIBFLATARRAY_LOOP_PEELER, loop_peeler', L + 'loop_peeler.hpp')])
p('P27', 'Registration metadata describes the class',
  'For every registered class, with up to 50 members including arrays, the number of members, the aggregated size and the offset reported for each member pointer are those of the registration list (offset = sizes of the members before it); whole-cell copies reach every member, and asking for a member that was not registered raises std::invalid_argument.',
  ['programs', 'configurations'], 'registration lists of 1 to 50 members with mixed types and array sizes, including equal types and arrays differing only in length',
  'Tests register a few small classes.',
  [L + 'macros.hpp', L + 'detail/macros.hpp', L + 'detail/offset.hpp', L + 'member_ptr_to_offset.hpp', L + 'number_of_members.hpp', L + 'aggregated_member_size.hpp'], [('registration macro', L + 'macros.hpp')])
p('P28', 'Vector width and type selection',
  'For every instruction set, element type and unrolling factor the selected width is the number of elements in that many hardware vectors (one element each without vector hardware), streaming vectors are selected exactly when the grid does not fit the cache estimate, scalar siblings keep kind and element type, and the published width, size and alignment of every vector type are consistent.',
  ['configurations'], 'six instruction sets, all element types, unrolling factors and widths, grid sizes around the cache estimate',
  'A test binary is built for one instruction set.',
  [L + 'ilp_to_arity.hpp', L + 'estimate_optimum_short_vec_type.hpp', L + 'alignment.hpp', L + 'detail/sibling_short_vec_switch.hpp', L + 'detail/streaming_short_vec_switch.hpp', L + 'short_vec.hpp'], [('ilp_to_arity', L + 'ilp_to_arity.hpp')])
p('P29', 'List macros work for every supported length',
  'For lists of every length up to 50 the preprocessor macros return the length, each element by position, the list without its head, the branch matching a comparison of the length with any number up to 50, and expand a macro once per element, in order, with index, argument and element.',
  ['programs'], 'every list length from 0 to 50, every position and every comparison length',
  'The macros are long hand-written tables; tests use lists of up to five elements.',
  [L + 'preprocessor.hpp', L + 'detail/preprocessor.hpp'], [('tables', L + 'detail/preprocessor.hpp')])
p('P30', 'Grids and vectors work the same with any allocator',
  'A grid or growing vector with an allocator other than the default one offers the same operations with the same results: copying, assignment, swapping (member and free function), resizing, growth, single callbacks, and paired callbacks with grids of the same or of another allocator. All storage is requested from and returned, with the requested size, to the given allocator and never to the default one.',
  ['programs', 'inputs', 'histories'], 'a recording allocator and aligned allocators of other alignments, all contents, the dimensions and counts used for the default allocator, every pair of grid objects for paired callbacks',
  'Tests only instantiate the default allocator, so operations that do not compile, or bypass the allocator, stay unseen.',
  GRID + [L + 'soa_vector.hpp', L + 'detail/dual_callback_helper.hpp'], [('soa_grid', L + 'soa_grid.hpp'), ('reserve', L + 'soa_vector.hpp')])
p('P31', 'Failing allocations neither leak nor corrupt',
  'If any request for storage fails with an exception during construction, resizing, copying, assignment, appending or reserving, the exception reaches the caller, nothing leaks, nothing is released twice and no member outside its life time is touched. Source operands keep their contents; a vector keeps its count and elements; a grid can be resized, assigned and destroyed as usual afterwards, its dimensions never claiming storage that it does not have.',
  ['histories', 'inputs'], 'failure of any subset of the requests of each operation, all contents, dimensions and counts around the growth steps',
  'Tests never make an allocation fail; the number of failure points grows with every history.',
  GRID + [L + 'soa_vector.hpp'], [('resize, operator=', L + 'soa_grid.hpp'), ('reserve, push_back', L + 'soa_vector.hpp')])
p('P32', 'Members are never copied or moved bytewise',
  'Members of class type are brought into being, copied and assigned only by their own constructors and assignment operators: members that refer to themselves or own resources (strings, containers) keep their meaning through every operation of grids, fixed-capacity arrays and growing vectors - setting, broadcasting, getting, copying, assignment, swapping, loading, growth, resizing.',
  ['histories', 'inputs'], 'histories of operations on arrays, vectors and grids with members that hold their own address, all values',
  'Bytewise copies are correct for the built-in types tests use, and often by luck for short strings.',
  [L + 'soa_array.hpp', L + 'soa_vector.hpp', L + 'soa_grid.hpp', L + 'detail/soa_array_member_copy_helper.hpp', L + 'detail/construct_functor.hpp'], [('swap, copy_in', L + 'soa_array.hpp'), ('copy helper', L + 'detail/soa_array_member_copy_helper.hpp'), ('construct_members', L + 'macros.hpp')])

p('P33', 'Constness is enforced at compile time',
  'Through a constant accessor, array, grid or vector - including what it hands out in turn: relative accessors, elements of array members, element accessors, data pointers - every reading operation compiles and no operation that could modify the underlying data does; the same modifying operations compile on the non-constant objects.',
  ['inputs'], 'all uses of the interface on constant and non-constant objects (a property of types)',
  'A test that compiles cannot contain the expression that must not compile; nothing notices when one starts to.',
  [L + 'soa_accessor.hpp', L + 'macros.hpp', L + 'detail/macros.hpp', L + 'soa_array.hpp', L + 'soa_grid.hpp', L + 'soa_vector.hpp'], [('const_soa_accessor, const_soa_accessor_light', L + 'soa_accessor.hpp'), ('member accessors', L + 'detail/macros.hpp'), ('operator[] const', L + 'soa_array.hpp')])

p('P34', 'Vector code for NEON, MIC and QPX equals the scalar code',
  'The vector classes for ARM NEON, Intel MIC and IBM QPX are accepted by a compiler for their processor and compute, lane by lane, what the scalar code does - arithmetic, division and roots within the precision of the processor\'s refined estimates, plain, aligned and streaming loads and stores touching exactly their elements and demanding no more alignment than alignment<> states, gather, scatter, comparisons and printing; so do the classes that remain scalar there.',
  ['configurations', 'inputs'], 'all lane values, addresses and offsets; every element type and vector length on each of the three processors',
  'Tests run on x86 only, where none of this code is even compiled.',
  [L + 'detail/short_vec_neon_*.hpp', L + 'detail/short_vec_mic_*.hpp', L + 'detail/short_vec_qpx_*.hpp', L + 'short_vec.hpp', L + 'streaming_short_vec.hpp', L + 'alignment.hpp'], [('short_vec<float, 4..32>', L + 'detail/short_vec_neon_float_4.hpp'), ('short_vec<double, 8..32>', L + 'detail/short_vec_mic_double_8.hpp'), ('short_vec<double, 4..32>', L + 'detail/short_vec_qpx_double_4.hpp')])

p('P35', 'Arrays in device memory behave like arrays in host memory',
  'cuda_array, cuda_allocator and the staging buffers hold what was loaded or filled into them: construction, copies, assignment, resizing, reserving, loading and saving preserve and fill contents exactly, size and capacity follow, the storage moves only when the capacity has to grow, device memory is acquired and released once, only device code and transfers in the right direction touch it, every launch configuration covers its whole grid and nothing but partial blocks beyond it, and the threads of a launch do not depend on each other.',
  ['inputs', 'histories'], 'all contents and fill values; sizes around the boundaries of a block of threads; histories of up to four operations',
  'The tests for this code need a CUDA device and are not even built elsewhere.',
  [L + 'cuda_array.hpp', L + 'cuda_allocator.hpp', L + 'detail/init_kernel.hpp', L + 'detail/staging_buffer.hpp', L + 'detail/generate_cuda_launch_config.hpp'], [('cuda_array::resize_implementation', L + 'cuda_array.hpp'), ('init_kernel', L + 'detail/init_kernel.hpp'), ('generate_cuda_launch_config', L + 'detail/generate_cuda_launch_config.hpp')])
p('P36', 'Grids and vectors in device memory behave like those in host memory',
  'soa_grid with cuda_allocator and device functors gives the results of a grid on the host: set, get, broadcast, load and save of runs, callbacks, copies, assignment, swap and resizing; soa_vector on such a grid keeps its elements across growth, copies and assignment; members are constructed and destroyed exactly once, storage and staging buffers are released exactly once, device memory is touched by device code and transfers only, and no thread of a launch touches what another one writes.',
  ['inputs', 'histories'], 'all cell contents; enumerated dimensions around extents and blocks of threads; run lists and histories of up to four operations',
  'The tests for this code need a CUDA device and are not even built elsewhere.',
  [L + 'soa_grid.hpp', L + 'soa_vector.hpp', L + 'detail/construct_functor.hpp', L + 'detail/destroy_functor.hpp', L + 'detail/copy_functor.hpp', L + 'detail/set_instance_functor.hpp', L + 'detail/get_instance_functor.hpp', L + 'detail/load_functor.hpp', L + 'detail/save_functor.hpp', L + 'detail/staging_buffer.hpp'], [('set_kernel', L + 'detail/set_instance_functor.hpp'), ('load_kernel', L + 'detail/load_functor.hpp'), ('copy_kernel', L + 'detail/copy_functor.hpp')])
p('P37', 'Accessors and arrays of cells can be used in device code',
  'Everything of the accessors and of soa_array that a kernel may call compiles for the device, and every kernel the library launches for a grid does: nothing reachable from device code is a host function or throws; the same programs compile for the host.',
  ['configurations'], 'every member of the four accessor kinds and of soa_array, every grid and array operation that launches kernels; plain, class type and private members',
  'No CUDA compiler takes part in the build, so no test instantiates device code.',
  [L + 'macros.hpp', L + 'detail/macros.hpp', L + 'detail/soa_array_member_copy_helper.hpp', L + 'detail/generic_destruct.hpp', L + 'soa_array.hpp', L + 'soa_grid.hpp', L + 'cuda_array.hpp'], [('soa_accessor', L + 'macros.hpp'), ('LIBFLATARRAY_COPY_SOA_MEMBER', L + 'detail/macros.hpp'), ('soa_array', L + 'soa_array.hpp')])

NA = [
    ('X01', 'CUDA code survives failing and overlapping launches', 'Launches and transfers that fail (too little memory, missing device) or overlap in time with others leave the same grids and arrays behind.', ['schedules', 'fault_sequences'], 'all devices, schedules and failures', 'No device in the test environment.', [L + 'cuda_array.hpp', L + 'cuda_allocator.hpp', L + 'detail/generate_cuda_launch_config.hpp'],
     'The CUDA memory model, the driver and the failures of its calls (which the library does not inspect) are outside the source; P35 to P37 decide what the source determines, with launches as loops over threads that are shown not to touch what another one writes.'),
    ('X03', 'Layouts are faster than arrays of structs', 'Access through the library has no address generation overhead compared with hand-written struct-of-arrays code.', ['inputs'], 'all kernels', 'Benchmarks measure single machines.', [L + 'testbed/', 'test/performance_tests.cpp'],
     'A statement about run time cost on hardware; no static argument over the source bounds it.'),
]
TECH = 'static value-flow analysis over compiler IR (translation validation of library code against specification code, path-joining dataflow with normalised value graphs)'
TYPESTATE = TECH + '; typestate analysis of storage and member life cycles'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, q, why, files, mech) in T:
            assert len(title) <= 80, i
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
        for (i, title, st, over, q, why, files, reason) in NA:
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': []}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': [], 'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in NA],
         'notes': 'Every check compiles use and specification functions against the headers in /repo to LLVM IR (never run) and compares value-flow summaries; see DESIGN.md.'}
    for t in T:
        i = t[0]
        m['checks'].append({'property': i, 'quick_cmd': f'python3 vf.py {i} quick', 'thorough_cmd': f'python3 vf.py {i} thorough',
                            'technique': TYPESTATE if i in ('P07', 'P08', 'P09', 'P10', 'P15', 'P16', 'P17', 'P30', 'P31', 'P32', 'P35', 'P36') else "type checking of witness programs by clang's CUDA front end, host and device pass (function effects: callable on host and device)" if i == 'P37' else TECH, 'level': 'other' if i == 'P37' else 'translation_validation',
                            'level_note': 'Every listed program is accepted by the front end for device and host, for each accessor kind and cell class. Trusts that clang\'s CUDA front end accepts what CUDA compilers accept and the declarations in include/isa/device.' if i == 'P37' else 'Quantifies over: ' + t[4] + '. Every agreeing pair has the same results, memory effects, exceptions and observable calls on all inputs within its bounds. Trusts clang\'s front end, the model of the IR and the x86 intrinsics in the engine, and the specification functions in probes/' + (', the intrinsics of the other processors as written down in include/isa' if i in ('P28', 'P34') else ', the CUDA runtime as written down in include/isa' if i in ('P35', 'P36', 'P37') else '') + '.'})
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


# how each property is decided: (pairs, specification/oracle, bounds)
HOW = {
    'P01': ('address arithmetic of every accessor kind: the probe returns the address of each member (and array element) of a symbolic cell', 'polynomial base + cells * offset + index * size', 'several extents and cell classes; index, data, steps symbolic'),
    'P02': ('stream operators and conversions of every accessor kind on a symbolic grid', 'one load and store per member', 'extents, cell classes, neighbours within one cell; contents symbolic'),
    'P03': ('load, save and copy_members on symbolic accessors and buffers', 'loop over cells with one member copy each', 'count symbolic up to 5 and constants up to 1025; index, offset, stride symbolic'),
    'P04': ('select_sizes with three symbolic dimensions, functor reports the extents it was instantiated with', 'decision table written from the documented size tables', 'none: all dimensions; all size tables the library ships plus custom ones'),
    'P05': ('set/get/broadcast on a symbolic grid object', 'selected extents (as in P04), then member copies', 'run length symbolic up to 3 and constants up to 1025; dimensions, coordinates, contents symbolic'),
    'P06': ('load/save of runs and sequences of runs on a symbolic grid object, several iterator and run types', 'packed member copies with running offset', 'up to 3 runs with symbolic lengths up to 3; selected constant lists of up to 17 runs and 300 cells'),
    'P07': ('constructor ... destructor with recording allocator and observable members', 'typestate rules + expected dims/extents/byte size + zeroed cells', 'enumerated dimensions around each size class'),
    'P08': ('construct, resize (once or twice), observe, destroy', 'typestate rules + summary of a fresh grid; refused sizes: unchanged', 'enumerated pairs of dimensions'),
    'P09': ('copy construction and assignment with symbolic contents, then observation of both grids', 'equal contents, distinct storage, typestate rules', 'enumerated pairs of dimensions'),
    'P10': ('swap (member and free function) and observation', 'every observer exchanged, typestate rules', 'enumerated pairs of dimensions'),
    'P11': ('callbacks (single, paired, const, stateful) on symbolic grid objects', 'decision table of extents of both grids; invalid_argument for unequal dimensions', 'none for dimensions; several size tables'),
    'P12': ('const operations on a symbolic grid object', 'empty write set on grid object and storage', 'run length bound; everything else symbolic'),
    'P13': ('every operation of the fixed-capacity array from every count', 'plain arrays with a count', 'capacities and counts enumerated, contents symbolic'),
    'P14': ('copies, assignments, loads, swaps for every combination of counts', 'plain arrays with a count', 'capacities, counts and offsets enumerated, contents symbolic'),
    'P15': ('array life cycles with observable members', 'typestate rules', 'capacities and counts enumerated'),
    'P16': ('histories of the growing vector', 'sequence of elements', 'start and target counts enumerated around growth steps, contents symbolic'),
    'P17': ('the histories of P16 with observable members and recording allocator', 'typestate rules', 'as P16'),
    'P18': ('allocate/deallocate with malloc/free as observed calls returning a chunk of symbolic position', 'alignment, containment and identity of the returned chunk', 'residue of the chunk modulo the alignment enumerated (16-byte steps); request size symbolic'),
    'P19': ('each operator on symbolic lanes', 'scalar operation per lane', 'none (bitwise equality of terms)'),
    'P20': ('division and square root on symbolic lanes', 'scalar operation per lane; real-field normal form with error bound for approximations', 'relative error bound'),
    'P21': ('loads, stores and constructors with symbolic memory', 'member copy per lane, demanded alignment not above the published one', 'none'),
    'P22': ('gather and scatter with symbolic offsets', 'sign-extended index per lane', 'none'),
    'P23': ('comparisons, any, get, count_mask and blend', 'scalar comparison per lane', 'none'),
    'P24': ('lane query and stream output (operator<< calls as events)', 'expected sequence of values', 'none'),
    'P25': ('streaming vector operations', 'as P21', 'none'),
    'P26': ('peelers with a kernel reporting each call', 'three-phase split of the range', 'block number symbolic, residues and short ranges enumerated'),
    'P27': ('registration of generated classes with 1 to 50 members', 'running sums over the registration list', 'list lengths enumerated'),
    'P28': ('compile time constants on six x86 instruction sets, NEON, MIC and QPX', 'table of register sizes', 'enumerated'),
    'P30': ('the units of P08, P09, P10, P11, P16 and P17 with other allocators; the default allocator reports every use', 'as there; default allocator unused', 'as there, fewer dimensions and counts'),
    'P31': ('operations under an allocator that reports each request and may refuse it (a symbol per request), then continued use', 'typestate rules; contents and count of the state before, or of the retried operation', 'enumerated dimensions and counts, every failure pattern symbolic'),
    'P32': ('histories with members that store their own address', 'after every history each member still holds its own address and the expected value', 'histories of up to 3 operations (vectors: 2 in the quick tier)'),
    'P34': ('every operation of every vector class, with the three processors\' intrinsics and types replaced by lane-wise models of their documentation', 'loop over lanes; approximate division and roots: same real expression within the error of the refined estimate', 'QPX: aligned addresses for its truncating vector loads and stores; MIC: offset lists aligned as its gather demands; NEON: the 32-bit code path'),
    'P35': ('construction, copying, resizing, reserving, filling, loading and saving of arrays in device memory, launch configurations; the runtime is a model that runs every thread of a launch', 'member copies on the host; which side may touch which memory; no thread touches what another one of its launch writes; typestate of device memory', 'sizes 0 to 7 and around 512 and 1024 elements; plain and class element types'),
    'P36': ('every operation of grids and vectors in device memory, launches included, read back through get()', 'member copies on the host, extents and byte size as for host grids; which side may touch which memory; no thread touches what another one of its launch writes; typestate of storage and members', 'enumerated dimensions, up to 1026 cells in a row and two blocks of threads; contents symbolic'),
    'P37': ('one kernel or host function per operation, type checked for the device and for the host', 'accepted by the front end: no call of a host function and no exception reachable from a kernel', 'listed operations x accessor kinds x cell classes'),
    'P33': ('type checking: for every expression of a list and every object type, whether the expression is well-formed, turned into a constant by overload resolution in clang', 'the table of which expressions must and must not be well-formed', 'listed expressions x accessor kinds, cell classes and extents'),
    'P29': ('expansion of every list macro for every length', 'expected token sequence, as events', 'enumerated'),
}


def design():
    src = open(os.path.join(ROOT, 'tools', 'DESIGN.in.md')).read()
    t = '| id | property | what is analysed | oracle | bounds |\n|---|---|---|---|---|\n'
    for x in T:
        h = HOW[x[0]]
        t += f'| {x[0]} | {x[1]} | {h[0]} | {h[1]} | {h[2]} |\n'
    na = ''.join(f'* **{n[0]} {n[1]}** - {n[-1]}\n' for n in NA)
    sd = os.path.join(ROOT, 'seeded')
    res = {}
    rp = os.path.join(ROOT, 'tools', 'seed_results.json')
    if os.path.exists(rp):
        res = json.load(open(rp))
    st = '| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        mp = os.path.join(sd, d, 'meta.json')
        if os.path.exists(mp):
            m = json.load(open(mp))
            st += f'| {d} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {", ".join(res.get(d, [])) or "-"} |\n'
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(src.replace('PROPTABLE', t).replace('NATABLE', na).replace('SEEDTABLE', st))



main()
design()
