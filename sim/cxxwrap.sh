#!/bin/bash
# Compiler wrapper used as CXX (and CC) by the simulation build: real g++ and the real flags of
# binding.gyp, plus the seams of the simulator:
#  - every src/*.cc goes through assembler text, where `cpuid` and `xgetbv` instructions are
#    replaced by calls to the simulated CPU (ysim.cc);
#  - the addon is linked with ysim.o and with malloc & co. redirected to the simulated allocator, and with node::Buffer::New, which the simulation may refuse;
#  - variant "conc": memory accesses are instrumented (-fsanitize=thread; the runtime is our scheduler)
#    and blocking calls go to the scheduler.
REAL=${YSIM_REAL_CXX:-g++}
uniq=-fno-gnu-unique; case "$REAL" in *clang*) uniq="";; esac
S=${YSIM_DIR:?}
src=""; out=""; compile=0; mm=0; shared=0; prev=""
for a in "$@"; do
	case "$a" in
		-c) compile=1;;
		-E|-MM) mm=1;;
		-shared) shared=1;;
		*.cc|*.cpp|*.c) src="$a";;
	esac
	[ "$prev" = "-o" ] && out="$a"
	prev="$a"
done
if [ $mm = 1 ]; then exec "$REAL" "$@"; fi
if [ $compile = 1 ]; then
	extra=()
	[ "$YSIM_VARIANT" = conc ] && extra+=(-fsanitize=thread)
	case "$src" in
		*crcutil*) exec "$REAL" "$@" $uniq "${extra[@]}";;
	esac
	args=(); prev=""
	for a in "$@"; do
		if [ "$a" = -c ]; then args+=(-S)
		elif [ "$prev" = "-o" ]; then args+=("$out.s")
		else args+=("$a"); fi
		prev="$a"
	done
	"$REAL" "${args[@]}" -mno-red-zone $uniq -fno-lto "${extra[@]}" || exit $?
	sed -i -E 's/(^|;)[[:space:]]*cpuid[[:space:]]*(;|#|$)/\1\tcall ysim_cpuid_thunk \2/g; s/(^|;)[[:space:]]*xgetbv[[:space:]]*(;|#|$)/\1\tcall ysim_xgetbv_thunk \2/g; s/(^|;)[[:space:]]*\.byte[[:space:]]+0x0f,[[:space:]]*0x01,[[:space:]]*0xd0[[:space:]]*(;|#|$)/\1\tcall ysim_xgetbv_thunk \2/g' "$out.s"
	"$REAL" -c "$out.s" -o "$out" || exit $?
	rm -f "$out.s"
	exit 0
fi
if [ $shared = 1 ]; then
	sync=()
	[ "$YSIM_VARIANT" = conc ] && sync=(-Wl,--wrap=uv_once,--wrap=pthread_once,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=uv_mutex_lock,--wrap=uv_mutex_trylock,--wrap=uv_mutex_unlock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort)
	exec "$REAL" "$@" "$YSIM_OBJ" "${sync[@]}" -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=memalign,--wrap=valloc \
		-Wl,--wrap=_Znwm,--wrap=_Znam,--wrap=_ZnwmRKSt9nothrow_t,--wrap=_ZnamRKSt9nothrow_t,--wrap=_ZdlPv,--wrap=_ZdlPvm,--wrap=_ZdaPv,--wrap=_ZdaPvm \
		-Wl,--wrap=_ZN4node6Buffer3NewEPN2v87IsolateEPcmPFvS4_PvES5_,--wrap=_ZN4node6Buffer3NewEPN2v87IsolateEm
fi
exec "$REAL" "$@"
