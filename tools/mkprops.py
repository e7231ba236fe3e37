import json
L='sljit_src/sljitLir.c'; H='sljit_src/sljitLir.h'
BE=['sljit_src/sljitNativeX86_common.c','sljit_src/sljitNativeX86_64.c','sljit_src/sljitNativeX86_32.c','sljit_src/sljitNativeARM_32.c','sljit_src/sljitNativeARM_T2_32.c','sljit_src/sljitNativeARM_64.c','sljit_src/sljitNativePPC_common.c','sljit_src/sljitNativePPC_64.c','sljit_src/sljitNativePPC_32.c','sljit_src/sljitNativeMIPS_common.c','sljit_src/sljitNativeMIPS_64.c','sljit_src/sljitNativeMIPS_32.c','sljit_src/sljitNativeRISCV_common.c','sljit_src/sljitNativeRISCV_64.c','sljit_src/sljitNativeS390X.c','sljit_src/sljitNativeLOONGARCH_64.c']
AL='sljit_src/allocator_src/'
P=[]
def p(id,title,st,over,qt,why,files,mech,state,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=s) for s in state],observe_at=obs,hook_needed=hook)))
p('C01','Integer operations produce exactly the defined result in every operand form',
 'For every valid combination of an integer operation (sljit_emit_op0/op1/op2/op2u/op2r/shift_into, 32 bit or word sized), source and destination operand kinds (register, immediate, every memory form, aliased registers) and operand values, the generated code stores the mathematically defined result in the destination. It changes no other register, no other byte of memory and no other byte of the local area. This holds on every supported CPU and for values and immediates at every encoding boundary.',
 ['inputs','programs','configurations'],'all integer opcodes x operand forms x register assignments x immediate/register values x preceding instructions x every backend',
 'Each opcode has dozens of encodings chosen by immediate ranges, register numbers, aliasing and width; the test suite samples a few hundred of these per backend while the space is many millions.',
 [H,L]+BE,[('sljit_emit_op1/op2/op2u/op2r/shift_into/op0 of each backend','sljit_src/sljitNative*.c'),('load_immediate / emit_op / emit_op_mem operand selection','sljit_src/sljitNative*.c')],
 ['machine registers','memory','locals'],['register, memory and local-area contents when the generated function returns, compared with an independent interpreter of the instruction list'])
p('C02','Status flags carry exactly the requested conditions',
 'After an operation requests the zero flag and/or one variable flag, every way of observing that flag (conditional jump, sljit_emit_op_flags, sljit_emit_select, sljit_emit_fselect, ADDC/SUBC, sljit_emit_op2cmpz) sees exactly the documented condition of that operation at its width. The flag keeps its value across any sequence of instructions documented as not modifying flags, and sljit_emit_cmp/op2cmpz branch exactly when their comparison holds.',
 ['inputs','programs','configurations'],'all flag-setting operations x flag types x operand values x flag-preserving instruction sequences x observers x backends',
 'Flag emulation depends on operand forms, aliasing of destination and sources, width, and on which instructions sit between setter and observer; tests only fix a few sequences.',
 [H,L]+BE,[('flag setting in emit_op2 and status_flags_state','sljit_src/sljitNative*.c'),('sljit_emit_op_flags / sljit_emit_select / get_jump_instruction / get_cc','sljit_src/sljitNative*.c'),('sljit_emit_cmp, sljit_emit_op2cmpz',L)],
 ['CPU flags or emulated flag registers (EQUAL_FLAG, OTHER_FLAG)','compiler->status_flags_state'],['destination of op_flags/select and the path taken by conditional jumps'])
p('C03','Memory operands access exactly the addressed bytes',
 'For every addressing form ([imm], [reg+imm], [reg+(reg<<n)], SP relative locals) and every integer or float load, store, unaligned access, register pair transfer and pre/post update, the generated code reads and writes exactly the bytes at base+index+offset with the documented size, extension and byte order. The base register is changed only by the update forms, which change it exactly as documented, for offsets of any magnitude and with any register aliasing the API permits.',
 ['inputs','programs','configurations'],'all memory operations x addressing forms x offsets and index scales x alignments x register aliasing x surrounding instructions x backends',
 'Every backend splits offsets at several encoding limits and caches address parts between instructions; the failing combination is a specific offset, alignment and previous instruction.',
 [H,L]+BE,[('getput_arg / emit_op_mem / emit_op_mem2 / adjust_shift address synthesis','sljit_src/sljitNative*.c'),('sljit_emit_mem, sljit_emit_mem_update, sljit_emit_fmem, sljit_emit_fmem_update','sljit_src/sljitNative*.c'),('sljit_get_local_base',L)],
 ['memory','base registers','cache_arg/cache_argw address caches'],['whole data buffer, locals and registers after the run compared byte for byte with the model'])
p('C04','Generated functions preserve everything their caller owns',
 'For every combination of argument types, scratch/saved integer, float and vector register counts, local size and options of sljit_emit_enter, calling the generated function and returning from it leaves the stack pointer, every callee-saved machine register and the caller-owned stack memory as the platform ABI requires. Inside the function the whole declared local area is usable without overlapping anything else, and saved registers and locals keep their values across calls.',
 ['inputs','programs','configurations'],'all valid sljit_emit_enter/sljit_set_context parameter combinations x return paths x backends',
 'The prologue and epilogue pick different instruction sequences for register counts, frame sizes around encoding limits and argument mixes; a clobbered callee-saved register or stack slot is invisible to a test whose C caller does not depend on it.',
 [H,L]+BE,[('sljit_emit_enter, sljit_set_context, emit_stack_frame_release','sljit_src/sljitNative*.c'),('GET_SAVED_REGISTERS_SIZE and local size rounding',L)],
 ['callee-saved registers','stack pointer','caller stack frame','locals'],['an assembly trampoline that loads sentinels in all callee-saved registers and surrounds the frame with canaries'])
p('C05','Calls pass every argument and result through the ABI intact',
 'For every supported signature, values passed from C to a generated function, from a generated function to C, and between generated functions (SLJIT_CALL, SLJIT_CALL_REG_ARG with kept saved registers, SLJIT_CALL_RETURN tail calls, direct or indirect through a register or memory) arrive unchanged in the documented registers, and the returned value arrives unchanged. Control continues after the call (or at the caller of the caller for tail calls, or at the given address for sljit_emit_return_to and fast calls).',
 ['inputs','programs','configurations'],'all argument type lists of up to four arguments x return types x call kinds x callee operand forms x register contents x backends',
 'Argument shuffling depends on the mix and order of integer, 32 bit, double and float arguments per ABI (341 argument lists times 6 results); tests use about thirty of them.',
 [H,L]+BE,[('sljit_emit_call, sljit_emit_icall, call_with_args, softfloat_call_with_args','sljit_src/sljitNative*.c'),('sljit_emit_return, sljit_emit_return_to, sljit_emit_op_src(FAST_RETURN)','sljit_src/sljitNative*.c')],
 ['argument registers and stack slots','return registers'],['argument values logged by C callees and generated callees, return value seen by C callers'])
p('C06','Every jump, call and label address reaches exactly its label',
 'For every layout of code, each jump, conditional jump, compare-and-branch, fast call and label address (sljit_emit_op_addr, sljit_get_label_addr, jump tables in read-only buffers) transfers control to or yields exactly the address of its label, forward or backward, at any distance and whatever short or long encodings are selected for it and its neighbours. Aligned labels have the requested alignment and their read-only buffers have the requested size and do not overlap other code.',
 ['inputs','programs','configurations'],'all program layouts: jump kinds x distances around every branch range x interleavings of jumps, labels, constants and buffers x backends',
 'Branch relaxation picks encodings from distances that themselves depend on the other branches; failures need a distance within a few bytes of a limit.',
 [H,L]+BE,[('reduce_code_size, detect_jump_type, generate_jump_or_mov_addr, sljit_generate_code','sljit_src/sljitNative*.c'),('sljit_emit_label, sljit_emit_aligned_label, sljit_set_label, sljit_set_target',L)],
 ['label addresses','jump list','generated code'],['order of block markers recorded while the code runs; label addresses compared with observed ones'])
p('C07','Floating point operations and conversions follow IEEE 754 as documented',
 'For every float operation (move, negate, abs, add, sub, mul, div, copysign, conversions between f32, f64 and integers, compares, fselect, fset, fcopy) in every operand form the generated code yields the correctly rounded IEEE 754 result, bit for bit except NaN payloads. Every basic, ordered and unordered comparison condition answers as documented for all values including NaN, infinities, signed zero and denormals, and out of range conversions yield the documented per-platform constants.',
 ['inputs','programs','configurations'],'all float opcodes x operand forms x special values x comparison types x backends',
 'Special values times comparison types times operand forms times eleven float encodings is far beyond the sampled cases.',
 [H,L]+BE,[('sljit_emit_fop1, sljit_emit_fop2, sljit_emit_fop2r, sljit_emit_fset32/64, sljit_emit_fcopy, sljit_emit_fselect','sljit_src/sljitNative*.c'),('sljit_emit_fop1_conv_* and sljit_emit_fop1_cmp','sljit_src/sljitNative*.c')],
 ['float registers','float status flags','memory'],['register and memory bits after the run, branch taken, op_flags result'])
p('C08','SIMD operations act on exactly the selected lanes',
 'For every SIMD operation the target reports as supported (mov, replicate, lane mov, lane replicate, extend, sign, and/or/xor/shuffle) and every register size, element size, lane, alignment option and operand form, the generated code produces exactly the documented lane contents. Memory outside the accessed bytes and unrelated registers do not change.',
 ['inputs','programs','configurations'],'all SIMD types x lanes x operand forms x data x backends with SIMD (x86 SSE/AVX, ARM NEON, AArch64, s390x, LoongArch LSX/LASX, RISC-V V)',
 'Each combination of size, element and lane selects its own instruction sequence on each backend.',
 [H,L]+BE,[('sljit_emit_simd_mov/replicate/lane_mov/lane_replicate/extend/sign/op2','sljit_src/sljitNative*.c')],
 ['vector registers','memory'],['vector register images stored to memory and compared with the lane model'])
p('C09','Atomic load/store pairs form linearizable read-modify-write operations',
 'For every supported operation size and mode (default, CAS, load/store exclusive), when any number of threads update shared locations with sljit_emit_atomic_load / sljit_emit_atomic_store loops, each reported success is exactly one indivisible update and each reported failure leaves memory unchanged. No update is lost or duplicated, bytes next to the location are never changed by the operation, unsigned loads return the zero extended value, and no other register changes. A memory barrier orders the memory accesses before it with the accesses after it.',
 ['schedules','inputs','configurations'],'all thread interleavings x operation sizes x modes x operand register choices x backends',
 'A broken retry or a lost update shows only under particular interleavings with other threads and with particular neighbouring data.',
 [H,L]+BE,[('sljit_emit_atomic_load / sljit_emit_atomic_store','sljit_src/sljitNative*.c')],
 ['shared memory word and its neighbours','ATOMIC_STORED flag'],['per-thread logs of (old, new, success) checked offline for a single total order'])
p('C10','Constants, jumps and read-only buffers can be rewritten at run time',
 'After sljit_set_const or sljit_set_jump_addr, the next execution of that constant or rewritable jump uses exactly the new value or target, for every value, opcode form, destination and position in the code, any number of times and in any order. Nothing else in the generated code changes behaviour, and sljit_read_only_buffer_start_writing/end_writing make exactly the written bytes visible to the generated code.',
 ['inputs','histories','configurations'],'all sequences of rewrites x const opcodes and destinations x jump kinds x initial and new values x allocators x backends',
 'Patching rewrites instruction fields in place; errors depend on old and new bit patterns and on the neighbouring instructions.',
 [H,L]+BE+[AL+'sljitWXExecAllocatorPosix.c'],[('sljit_set_const, sljit_set_jump_addr, sljit_emit_const','sljit_src/sljitNative*.c'),('sljit_read_only_buffer_start_writing/end_writing',L)],
 ['patched instructions','instruction cache'],['values produced and targets reached by the code after each rewrite'])
p('C11','Serialization at any point is transparent',
 'If a compiler is serialized with sljit_serialize_compiler at any point of the emission, freed, and restored with sljit_deserialize_compiler, then continuing the emission produces a function that behaves the same as without serialization, and labels, jumps and constants keep their order and identity. Damaged or truncated input that fails validation is rejected with NULL without crashing.',
 ['programs','histories','configurations'],'all programs x all serialization points (also repeated) x options x backends',
 'Every field of compiler state that matters at some point must survive; tests serialize a dozen fixed programs at fixed points.',
 ['sljit_src/sljitSerialize.c',H,L],[('sljit_serialize_compiler / sljit_deserialize_compiler','sljit_src/sljitSerialize.c')],
 ['compiler structure, label/jump/const lists, instruction buffer'],['results of the code generated after restore versus the direct compilation; object lists by index'])
p('C12','Allocation failure at any point is reported and contained',
 'Whichever allocation request (compiler memory, executable memory, serialization buffer, stack) fails during any emission sequence, the compiler reports an error that stays set, every later call returns that error without crashing or emitting code, generate_code returns NULL, and after freeing the compiler no memory is leaked or freed twice.',
 ['fault_sequences','programs'],'all programs x every index of failing allocation (single, from-then-on, random subsets) x backends',
 'Only exhaustive failure injection over each allocation index of many programs reaches every error path.',
 [L,'sljit_src/sljitSerialize.c','sljit_src/sljitUtils.c'],[('ensure_buf/ensure_abuf, PTR_FAIL_IF_NULL, CHECK_ERROR',L),('sljit_create_compiler / sljit_free_compiler',L)],
 ['compiler->error','allocation ledger'],['return codes of all API calls, allocation ledger at the end, sanitizer reports'])
p('C13','The compiler never reads or writes outside its own memory',
 'For every valid sequence of API calls on every backend, the library performs no out-of-bounds, use-after-free or uninitialised access and no invalid shift, division or null access in its own process, no internal assertion fires, and sljit_generate_code never writes outside the code buffer it obtained or was given. The reported code size never exceeds the buffer and covers all of the generated code.',
 ['inputs','programs','configurations'],'all valid programs (instruction mixes, jump layouts, constant pools, aligned labels, buffers) x backends x buffer sizes',
 'Size estimates of each instruction are computed apart from its encoding; an underestimate corrupts memory only for a particular mix and is masked by allocation rounding.',
 [L,'sljit_src/sljitSerialize.c']+BE,[('sljit_generate_code size computation and code emission','sljit_src/sljitNative*.c'),('SLJIT_GENERATE_CODE_BUFFER handling, allocate_executable_memory',L)],
 ['instruction buffers','code buffer','compiler->size'],['AddressSanitizer/UBSan on the library with exact-size executable allocations; canaries behind user buffers'])
p('C14','Executable allocators hand out valid, disjoint and reusable memory',
 'For every history of allocations and frees of executable memory with any sizes, from any number of threads, live blocks never overlap, are suitably aligned and at least as large as requested, keep their contents until freed, and freed memory is coalesced and reusable so that freeing everything and calling sljit_free_unused_memory_exec returns all memory. With the protected and W^X allocators a block is never writable and executable at the same time through one mapping, and code written through the writable view executes from the executable view.',
 ['histories','schedules','configurations','fault_sequences'],'all alloc/free histories x sizes x threads x mmap failures x the three allocators',
 'Free-list corruption and double counting need particular orders of splits and merges or thread interleavings.',
 [AL+'sljitExecAllocatorCore.c',AL+'sljitExecAllocatorPosix.c',AL+'sljitProtExecAllocatorPosix.c',AL+'sljitWXExecAllocatorPosix.c'],[('sljit_malloc_exec / sljit_free_exec / sljit_free_unused_memory_exec',AL+'sljitExecAllocatorCore.c'),('alloc_chunk / free_chunk, SLJIT_UPDATE_WX_FLAGS',AL+'sljit*ExecAllocatorPosix.c')],
 ['block headers, free list, total_size, allocated_size','process mappings'],['shadow interval set, content fingerprints, /proc/self/maps, mapped bytes intercepted at mmap/munmap'])
p('C15','The growable stack respects its limits and keeps its data',
 'For every history of sljit_allocate_stack, sljit_stack_resize and sljit_free_stack, the usable area always equals the last successful size within max_size, data in the retained area is preserved and all of it is readable and writable. A resize out of range or a failed resize returns NULL and changes nothing, and freeing releases the whole reservation.',
 ['histories','inputs','fault_sequences'],'all resize histories x start/max sizes x allocation failures',
 'Tests do a handful of fixed resizes; page rounding and limit comparisons fail only at particular sizes.',
 ['sljit_src/sljitUtils.c'],[('sljit_allocate_stack / sljit_stack_resize / sljit_free_stack','sljit_src/sljitUtils.c')],
 ['struct sljit_stack'],['stack fields, memory contents and mapping ledger after each operation'])
p('C16','Argument checking rejects invalid calls and accepts valid ones',
 'When argument checks are enabled, every API call with an argument the documentation forbids (register outside the declared set, immediate as destination, unknown opcode or flag combination, bad signature, offset outside the locals, use of flags that are not set) is reported as SLJIT_ERR_BAD_ARGUMENT, which stays set and prevents code generation, and every valid call is accepted. A rejected call does not crash the compiler.',
 ['inputs','programs','configurations'],'all API functions x all argument values around each limit x compiler contexts x backends',
 'The number of checked conditions times values is large and tests only check that valid programs pass.',
 [L,H],[('check_sljit_* functions, function_check_src/dst/..., CHECK, CHECK_PTR',L)],
 ['compiler->error','compiler->last_flags','scratches/saveds/logical_local_size'],['return value and compiler error of each mutated call compared with an independent validity predicate'])
p('C17','Independent compilers can be used from many threads',
 'When several threads create, use, serialize, generate and free their own compilers and code at the same time, each thread obtains the same behaviour it would obtain alone, and the shared parts (CPU feature detection, executable allocator, stack allocator) are free of harmful data races. Compiling the same program twice yields identical results.',
 ['schedules','programs'],'all interleavings of any number of compiling, executing and freeing threads',
 'Races show only under particular schedules; the tests are single threaded.',
 [L,'sljit_src/sljitUtils.c',AL+'sljitExecAllocatorCore.c','sljit_src/sljitNativeX86_common.c'],[('SLJIT_ALLOCATOR_LOCK, sljit_create_compiler initialisation, get_cpu_features','sljit_src/sljitUtils.c; sljit_src/sljitLir.c')],
 ['allocator free list','cpu_feature_list','stack allocator'],['per-thread results versus a single threaded reference; ThreadSanitizer reports'])
p('C18','The regex compiler finds the same match as a reference matcher',
 'For every pattern of the supported regular expression syntax and every subject string, feeding the subject in any split of chunks, the machine code built by regex_compile reports the same match begin, end, id and finished state as a direct reference implementation of the documented semantics, for every flag combination. Invalid patterns are rejected with the documented error codes, and no pattern or input causes invalid memory access.',
 ['inputs','histories','configurations'],'all patterns x subjects x input chunkings x flags x backends',
 'The pattern space is unbounded; the tests run about thirty patterns.',
 ['regex_src/regexJIT.c','regex_src/regexJIT.h'],[('regex_compile: parse, transition computation, code generation','regex_src/regexJIT.c'),('regex_continue_match, regex_get_result','regex_src/regexJIT.c')],
 ['matcher state vector'],['regex_get_result after each chunk compared with the reference matcher'])
p('C19','Debug, verbose and checking builds behave the same as release builds',
 'Enabling or disabling SLJIT_DEBUG, SLJIT_VERBOSE and SLJIT_ARGUMENT_CHECKS, turning verbose output on or off during emission, and choosing a different executable allocator never changes the success or the behaviour of a valid program, and no internal assertion fires. Verbose output is produced for each emitted instruction, only on the given stream, without affecting it.',
 ['programs','configurations'],'all valid programs x build option combinations x verbose on/off points',
 'Debug-only state (skip_checks, last_flags, real_fscratches) can be left inconsistent by one instruction and only affect a later one.',
 [L,'sljit_src/sljitConfig.h','sljit_src/sljitConfigInternal.h'],[('CHECK, SLJIT_SKIP_CHECKS, sljit_compiler_verbose, sljit_verbose_*',L)],
 ['skip_checks, last_flags, verbose'],['generated machine code and run results of the same program under each build'])
p('C20','Capability queries and machine register queries tell the truth',
 'sljit_has_cpu_feature, sljit_cmp_info, SLJIT_MEM_SUPP, SLJIT_SIMD_TEST and SLJIT_ATOMIC_TEST emit nothing, and a form is reported as supported exactly when emitting it succeeds and works. sljit_get_register_index returns the machine register that really holds the value, so that custom instructions inserted with sljit_emit_op_custom are executed verbatim and see and change exactly those registers.',
 ['inputs','programs','configurations'],'all query types x operand forms x registers x backends',
 'The query path and the emission path are separate code; a mismatch is visible only for the particular form.',
 [H,L]+BE,[('sljit_has_cpu_feature, sljit_get_register_index, sljit_emit_op_custom','sljit_src/sljitNative*.c'),('*_TEST / *_SUPP early returns','sljit_src/sljitNative*.c')],
 ['compiler->size','machine registers'],['return codes and generated code with and without the test flag; registers changed by hand-encoded instructions'])
for x in P:
    assert len(x['title'])<=80,x['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
