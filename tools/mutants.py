#!/usr/bin/env python3
"""Small changes of the library that break a property: tools/mutants.py [-jN] [--tests] [PATTERN...] runs the property's check on each.
(id, property, file, context, old, new): the first `old` behind `context` becomes `new`."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedtest_lib as T
V, L, S, B, F, A = "src/Vector.c", "src/List.c", "src/String.c", "src/Bitset.c", "src/Format.c", "src/ArgParse.c"
API = "src/API/"
M = [
 # vectors
 ("v-shift-u8", "P01", V, "ZyanVectorShiftRight(ZyanVector", "(vector->size - index) * vector->element_size", "(ZyanU16)((vector->size - index) * vector->element_size)"),
 ("v-shiftl-min", "P01", V, "static ZyanStatus ZyanVectorShiftLeft(", "(vector->size - index - count) * vector->element_size", "ZYAN_MIN(vector->size - index - count, 128) * vector->element_size"),
 ("v-dup-size", "P01", V, "ZyanVectorDuplicateEx(", "ZYAN_MEMCPY(destination->data, source->data, len * source->element_size)", "ZYAN_MEMCPY(destination->data, source->data, ZYAN_MIN(len * source->element_size, capacity))"),
 ("v-swap", "P01", V, "ZyanVectorSwapElements", "ZYAN_MEMCPY(b, t, vector->element_size)", "ZYAN_MEMCPY(b, t, ZYAN_MIN(vector->element_size, 32))"),
 ("v-ins-range-off", "P02", V, "ZyanVectorInsertRange", "if (index > vector->size)", "if (index > vector->capacity)"),
 ("v-del-range-null", "P02", V, "ZyanVectorDeleteRange", "if (!vector || !count)", "if (!vector)"),
 ("v-emplace-range", "P02", V, "ZyanVectorEmplaceEx(", "if (index > vector->size)", "if (index > vector->size + 1)"),
 ("v-getptr", "P02", V, "ZyanVectorGetPointerMutable", "if (index >= vector->size)", "if (index >= vector->capacity)"),
 ("v-set-order", "P02", V, "ZyanVectorSet(", "if (index >= vector->size)", "if (index > vector->size)"),
 ("v-dealloc-n", "P03", V, "ZyanVectorDestroy", "vector->element_size, vector->capacity)", "vector->element_size, vector->size)"),
 ("v-shrink", "P03", V, "ZyanVectorPopBack", "ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold)", "ZYCORE_VECTOR_SHOULD_SHRINK(vector->size + 1, vector->capacity, vector->shrink_threshold)"),
 ("v-reserve-le", "P03", V, "ZyanVectorReserve", "if (capacity > vector->capacity)", "if (capacity != vector->capacity)"),
 ("v-mincap", "P03", V, "static ZyanStatus ZyanVectorReallocate", "if (vector->capacity > ZYAN_VECTOR_MIN_CAPACITY)", "if (vector->capacity > ZYAN_VECTOR_MIN_CAPACITY + 1)"),
 ("v-buf-grow", "P03", V, "static ZyanStatus ZyanVectorReallocate", "if (vector->capacity < capacity)", "if (vector->capacity + 1 < capacity)"),
 ("v-alloc-swap", "P03", V, "ZyanVectorDuplicateEx(", "allocator, growth_factor, shrink_threshold", "source->allocator ? source->allocator : allocator, growth_factor, shrink_threshold"),
 ("v-push-order", "P04", V, "ZyanVectorPushBack", "    ++vector->size;\n", ""),
 ("v-emplace-nofail", "P04", V, "ZyanVectorEmplaceEx(", "ZYAN_CHECK(ZyanVectorReallocate(vector,", "(void)(ZyanVectorReallocate(vector,"),
 ("v-resize-dtor", "P05", V, "ZyanVectorResizeEx(ZyanVector", "for (ZyanUSize i = size; i < vector->size; ++i)", "for (ZyanUSize i = size + 1; i < vector->size; ++i)"),
 ("v-set-dtor", "P05", V, "ZyanVectorSet(", "if (vector->destructor)", "if (vector->destructor && index)"),
 ("v-destroy-cap", "P05", V, "ZyanVectorDestroy(", "if (vector->destructor)", "if (vector->destructor && vector->allocator)"),
 ("v-del-dtor-after", "P05", V, "ZyanVectorDeleteRange", "for (ZyanUSize i = index; i < index + count; ++i)", "for (ZyanUSize i = index; i < index + count && i < vector->size - 1; ++i)"),
 ("v-find-end", "P06", V, "ZyanVectorFindEx(const", "for (ZyanUSize i = index; i < index + count; ++i)", "for (ZyanUSize i = index; i < vector->size; ++i)"),
 ("v-bs-first", "P06", V, "ZyanVectorBinarySearchEx(const", "if (cmp == 0)\n            {\n                status = ZYAN_STATUS_TRUE;", "if (cmp == 0)\n            {\n                *found_index = mid; return ZYAN_STATUS_TRUE;"),
 ("v-bs-high", "P06", V, "ZyanVectorBinarySearchEx(const", "ZyanISize h = index + count - 1;", "ZyanISize h = (index + count < vector->size) ? index + count : index + count - 1;"),
 ("v-bs-empty", "P06", V, "ZyanVectorBinarySearchEx(const", "*found_index = index;", "*found_index = 0;"),
 # lists
 ("l-pushfront", "P07", L, "ZyanListPushFront", "list->head->prev= node;", "if (list->head != list->tail) list->head->prev= node;"),
 ("l-popback", "P07", L, "ZyanListPopBack", "list->tail->next = ZYAN_NULL;", "if (list->allocator) list->tail->next = ZYAN_NULL;"),
 ("l-remove-tail", "P07", L, "ZyanListRemoveRange", "list->tail = prev;", "list->tail = prev ? prev : list->tail;"),
 ("l-resize-head", "P07", L, "ZyanListResizeEx(ZyanList", "            node->prev = list->tail;", "            node->prev = (list->tail == list->head) ? ZYAN_NULL : list->tail;"),
 ("l-emplace-front", "P07", L, "ZyanListEmplaceFront", "    node->next = list->head;", "    node->next = constructor ? list->head : (list->head ? list->head : ZYAN_NULL);\n    if (constructor && list->size > 3) node->next = list->head->next;"),
 ("l-buf-exact", "P08", L, "static ZyanStatus ZyanListAllocateNode", "> list->capacity", ">= list->capacity"),
 ("l-buf-over", "P08", L, "static ZyanStatus ZyanListAllocateNode", "if (size + (sizeof(ZyanListNode) + list->element_size) > list->capacity)", "if (size + sizeof(ZyanListNode) + 1 > list->capacity)"),
 ("l-reuse", "P08", L, "static ZyanStatus ZyanListDeallocateNode", "node->next = list->first_unused;", "node->next = ZYAN_NULL;"),
 ("l-clear-unused", "P08", L, "ZyanListResizeEx(ZyanList", "        list->first_unused = ZYAN_NULL;\n", ""),
 ("l-dtor-range", "P09", L, "ZyanListRemoveRange", "        if (list->destructor)", "        if (list->destructor && (current != last || first == last))"),
 ("l-ctor-leak", "P09", L, "ZyanListEmplaceFront", "ZYAN_CHECK(ZyanListDeallocateNode(list, node));", "if (!list->allocator) ZYAN_CHECK(ZyanListDeallocateNode(list, node));"),
 ("l-set-dtor", "P09", L, "ZyanListSetNodeData", "if (list->destructor)", "if (list->destructor && node != list->tail)"),
 # strings
 ("s-insert-term", "P11", S, "ZyanStatus ZyanStringInsertEx", "if (destination_index >= destination->vector.size)", "if (destination_index > destination->vector.size)"),
 ("s-append-null", "P10", S, "ZyanStatus ZyanStringAppend(", "    ZYCORE_STRING_NULLTERMINATE(destination);\n", ""),
 ("s-concat-len", "P10", S, "ZyanStatus ZyanStringConcatCustomBuffer", "if (capacity < len)", "if (capacity + 1 < len)"),
 ("s-dup-term", "P10", S, "ZyanStatus ZyanStringDuplicateEx", "    ZYCORE_STRING_NULLTERMINATE(destination);\n", ""),
 ("s-setchar", "P10", S, "ZyanStatus ZyanStringSetChar", "if (index >= string->vector.size - 1)", "if (index >= string->vector.size)"),
 ("s-insertex", "P11", S, "ZyanStatus ZyanStringInsertEx", "(count >= source->string.vector.size - source_index)", "(count > source->string.vector.size - source_index)"),
 ("s-dup-buf", "P11", S, "ZyanStatus ZyanStringDuplicateCustomBuffer", "if (capacity < len)", "if (capacity < len - 1)"),
 ("s-lpos-end", "P12", S, "ZyanStatus ZyanStringLPosEx(const", ">= index + count)", "> index + count)"),
 ("s-lposi-reset", "P12", S, "ZyanStatus ZyanStringLPosIEx(const", "        b = (char*)needle->string.vector.data;\n", ""),
 ("s-rpos-low", "P12", S, "ZyanStatus ZyanStringRPosEx(const", "+ index - count)", "+ index - count - 1)"),
 ("s-rposi-start", "P12", S, "ZyanStatus ZyanStringRPosIEx(const", "const char* s = (const char*)haystack->string.vector.data + index - 1;", "const char* s = (const char*)haystack->string.vector.data + index - (index < haystack->string.vector.size - 1 ? 0 : 1);"),
 ("s-cmp-len", "P13", S, "ZyanStatus ZyanStringCompareI(", "*result = -1;", "*result = 1;"),
 ("s-cmp-case", "P13", S, "ZyanStatus ZyanStringCompare(", "if (a[i] == b[i])", "if (((a[i] ^ b[i]) & ~32) == 0 && i > 2)"),
 ("s-lower-z", "P13", S, "ZyanStatus ZyanStringToLowerCaseEx(", "(c <= 'Z')", "(c < 'Z')"),
 ("s-upper-range", "P13", S, "ZyanStatus ZyanStringToUpperCaseEx(", "for (ZyanUSize i = index; i < index + count; ++i)", "for (ZyanUSize i = 0; i < count + (index > 1); ++i)"),
 ("s-view-size", "P14", S, "ZyanStatus ZyanStringViewInsideBufferEx(", "view->string.vector.size = length + 1;", "view->string.vector.size = (ZyanU16)(length + 1);"),
 ("s-view-off", "P14", S, "ZyanStatus ZyanStringViewInsideViewEx(", "+ index);", "+ (count ? index : 0));"),
 # bitsets
 ("b-and", "P15", B, "ZyanBitsetPerformByteOperation", "const ZyanUSize min = ZYAN_MIN(s1, s2);", "const ZyanUSize min = (s1 == s2) ? s1 : ZYAN_MIN(s1, s2) - 1;"),
 ("b-push-dirty", "P15", B, "ZyanStatus ZyanBitsetPush", "return ZyanBitsetAssign(bitset, bitset->size - 1, value);", "return value ? ZyanBitsetSet(bitset, bitset->size - 1) : ZYAN_STATUS_SUCCESS;"),
 ("b-flip", "P15", B, "ZyanStatus ZyanBitsetFlip", "for (ZyanUSize i = 0; i < size; ++i)", "for (ZyanUSize i = 0; i < size - (bitset->size % 8 == 1); ++i)"),
 ("b-msb", "P15", B, "ZyanStatus ZyanBitsetTestMSB", "bitset->size - 1", "bitset->bits.size * 8 - 1"),
 ("b-count", "P16", B, "ZyanStatus ZyanBitsetCount", "popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);", "popcnt = ((popcnt & 0x0F) + ((popcnt >> 4) & 0x0F)) & 0x07;"),
 ("b-any", "P16", B, "ZyanStatus ZyanBitsetAny", "for (ZyanUSize i = 0; i < size; ++i)", "for (ZyanUSize i = 0; i < size && i < 8; ++i)"),
 ("b-all-empty", "P16", B, "ZyanStatus ZyanBitsetAll", "    ZyanUSize size;\n", "    if (!bitset->size) return ZYAN_STATUS_FALSE;\n    ZyanUSize size;\n"),
 ("b-pop", "P17", B, "ZyanStatus ZyanBitsetPop", "if ((--bitset->size % 8) == 0)", "if ((--bitset->size % 8) == 0 && bitset->size)"),
 ("b-clear", "P17", B, "ZyanStatus ZyanBitsetClear", "    bitset->size = 0;\n", ""),
 ("b-initbuf", "P17", B, "ZyanStatus ZyanBitsetInitBuffer", "if (capacity < bytes)", "if (capacity < count / 8)"),
 ("b-cap", "P17", B, "ZyanStatus ZyanBitsetGetCapacity(", "*capacity *= 8;", "*capacity = (ZyanU8)*capacity * 8;"),
 # numbers
 ("f-dec-odd", "P18", F, "ZyanStatus ZyanStringAppendDecU64", "(ZyanUSize)(value < 10)", "(ZyanUSize)(value < 10 && buffer_write_pointer + 2 != buffer + 2)"),
 ("f-lookup", "P18", F, "DECIMAL_LOOKUP", "90919293949596979899", "90919293949596979989"),
 ("f-hex32", "P18", F, "ZyanStatus ZyanStringAppendHexU64", "0xFFFFFFFF00000000", "0xFFFFFFFE00000000"),
 ("f-hexpad", "P18", F, "ZyanStatus ZyanStringAppendHexU64", "if (padding_length > i)", "if (padding_length > i + 1 && padding_length < 128)"),
 ("f-force", "P18", F, "ZyanStatus ZyanStringAppendHexS", "if (force_sign)", "if (force_sign && value)"),
 ("f-x86-dec", "P18", F, "ZyanStatus ZyanStringAppendDecU32", "while (value >= 100)", "while (value > 100)"),
 ("f-dec-cap", "P19", F, "ZyanStatus ZyanStringAppendDecU64", "if (string->vector.size + length_total > string->vector.capacity)", "if (string->vector.size + length_number > string->vector.capacity)"),
 ("f-fmt-null", "P19", F, "ZyanStatus ZyanStringAppendFormat", "        return ZYAN_STATUS_FAILED;", "        return ZYAN_STATUS_SUCCESS;"),
 # argparse
 ("a-dash", "P20", A, "ZyanArgParseEx", "if (accept_dash_args && arg_len > 1 && cur_arg[0] == '-')", "if (arg_len > 1 && cur_arg[0] == '-')"),
 ("a-last", "P20", A, "Does the argument expect a value", "if (i == cfg->argc - 1)", "if (i >= cfg->argc - 1 || cfg->argv[i + 1][0] == '-')"),
 ("a-strcmp", "P20", A, "Find corresponding argument definition", "ZYAN_STRCMP(def->name, cur_arg) == 0", "ZYAN_STRNCMP(def->name, cur_arg, arg_len) == 0"),
 ("a-required", "P21", A, "Check whether all required", "if (arg->def == def)", "if (arg->def && arg->def->required)"),
 ("a-min", "P21", A, "Do we have enough unnamed", "if (num_unnamed_args < cfg->min_unnamed_args)", "if (num_unnamed_args < cfg->min_unnamed_args && accept_dash_args)"),
 ("a-errtok", "P21", A, "Requires value?", "ZYAN_ERR_TOK(cur_arg)", "ZYAN_ERR_TOK(read_ptr)"),
 ("a-leak", "P21", A, "failure:", "ZYAN_CHECK(ZyanVectorDestroy(parsed));", "if (parsed->size) ZYAN_CHECK(ZyanVectorDestroy(parsed));"),
 # synchronization
 ("y-norec", "P22", API + "Synchronization.c", "ZyanCriticalSectionInitialize", "PTHREAD_MUTEX_RECURSIVE", "PTHREAD_MUTEX_ERRORCHECK"),
 ("y-normal", "P22", API + "Synchronization.c", "ZyanCriticalSectionInitialize", "PTHREAD_MUTEX_RECURSIVE", "PTHREAD_MUTEX_NORMAL"),
 ("y-try-block", "P22", API + "Synchronization.c", "ZyanCriticalSectionTryEnter", "pthread_mutex_trylock(critical_section) ? ZYAN_FALSE : ZYAN_TRUE", "(pthread_mutex_trylock(critical_section) && pthread_mutex_lock(critical_section)) ? ZYAN_FALSE : ZYAN_TRUE"),
 ("y-try-nolock", "P22", API + "Synchronization.c", "ZyanCriticalSectionTryEnter", "return pthread_mutex_trylock(critical_section) ? ZYAN_FALSE : ZYAN_TRUE;", "if (pthread_mutex_trylock(critical_section)) return ZYAN_FALSE; pthread_mutex_unlock(critical_section); return ZYAN_TRUE;"),
 ("y-enter-try", "P22", API + "Synchronization.c", "ZyanCriticalSectionEnter", "pthread_mutex_lock(critical_section)", "(pthread_mutex_trylock(critical_section), 0)"),
 ("y-leave-status", "P22", API + "Synchronization.c", "ZyanCriticalSectionLeave", "if (error == EPERM)", "if (error == EBUSY)"),
 # threads
 ("t-dtor-null", "P23", API + "Thread.c", "ZyanThreadTlsAlloc", "pthread_key_create(&value, destructor)", "pthread_key_create(&value, ZYAN_NULL)"),
 ("t-id-const", "P23", API + "Thread.c", "ZyanThreadGetCurrentThreadId", "pthread_t ptid = pthread_self();", "static pthread_t ptid; if (!ptid) ptid = pthread_self();"),
 ("t-id-trunc", "P23", API + "Thread.c", "ZyanThreadGetCurrentThreadId", "*(ZyanThreadId*)ptid", "(ZyanU8)*(ZyanThreadId*)ptid"),
 ("t-set-null", "P23", API + "Thread.c", "ZyanThreadTlsSetValue", "const int error = pthread_setspecific(index, data);", "const int error = data ? pthread_setspecific(index, data) : 0;"),
 ("t-free-leak", "P23", API + "Thread.c", "ZyanThreadTlsFree", "!pthread_key_delete(index)", "index != (ZyanThreadTlsIndex)-1"),
 ("t-cache", "P23", API + "Thread.c", "ZyanThreadTlsGetValue", "*data = pthread_getspecific(index);", "static ZyanThreadTlsIndex li; static void* lv; static int have; if (!have || li != index) { lv = pthread_getspecific(index); li = index; have = 1; } *data = lv; have = 0; if (index == 2) have = 1;"),
 ("t-oom", "P23", API + "Thread.c", "ZyanThreadTlsAlloc", "return ZYAN_STATUS_OUT_OF_RESOURCES;", "return ZYAN_STATUS_BAD_SYSTEMCALL;"),
 # atomics
 ("x-inc-nonatomic", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicIncrement32", "(ZyanU32)(__sync_fetch_and_add(&destination->value, 1, &destination->value)) + 1", "++destination->value"),
 ("x-dec-old", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicDecrement64", "__sync_sub_and_fetch", "__sync_fetch_and_sub"),
 ("x-cas-32", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicCompareExchange64", "&destination->value, comparand, value", "&destination->value, (ZyanU32)comparand, value"),
 ("x-cas-race", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicCompareExchange(", "return (ZyanUPointer)(__sync_val_compare_and_swap(", "if ((ZyanUPointer)destination->value != comparand) return (ZyanUPointer)destination->value; destination->value = (void*)value; return comparand; return (ZyanUPointer)(__sync_val_compare_and_swap("),
 ("x-inc64-split", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicIncrement64", "return (ZyanU64)(__sync_fetch_and_add(&destination->value, 1, &destination->value)) + 1;", "__sync_fetch_and_add(&destination->value, 1); return destination->value;"),
 ("x-ptr-scale", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicDecrement(", "(void*)1", "(void*)sizeof(void*)"),
 # platform
 ("m-page", "P25", API + "Memory.c", "ZyanMemoryVirtualProtect(", "mprotect(address, size, protection)", "mprotect(address, size & ~(ZyanUSize)0xFFF, protection)"),
 ("m-exec", "P25", API + "Memory.c", "ZyanMemoryVirtualProtect(", "mprotect(address, size, protection)", "mprotect(address, size, protection == ZYAN_PAGE_EXECUTE ? ZYAN_PAGE_EXECUTE_READ : protection)"),
 ("m-free", "P25", API + "Memory.c", "ZyanMemoryVirtualFree(", "munmap(address, size)", "munmap(address, size > 0x10000 ? size : size & ~(ZyanUSize)0xFFF)"),
 ("m-align", "P25", API + "Memory.c", "ZyanMemoryVirtualProtect(", "mprotect(address, size, protection)", "mprotect((void*)((ZyanUPointer)address & ~(ZyanUPointer)0xFFF), size, protection)"),
 ("m-tty-errno", "P25", API + "Terminal.c", "ZyanTerminalIsTTY", "if (ZYAN_ERRNO == EBADF)", "if (ZYAN_ERRNO == ENOTTY)"),
 ("m-tty-err", "P25", API + "Terminal.c", "ZyanTerminalIsTTY", "file = STDERR_FILENO;", "file = STDOUT_FILENO;"),
 ("m-vt-in", "P25", API + "Terminal.c", "ZyanTerminalEnableVT100", "(stream != ZYAN_STDSTREAM_OUT) && (stream != ZYAN_STDSTREAM_ERR)", "(stream != ZYAN_STDSTREAM_OUT) && (stream != ZYAN_STDSTREAM_ERR) && (stream != ZYAN_STDSTREAM_IN)"),
 ("m-flush", "P25", API + "Process.c", "ZyanProcessFlushInstructionCache", "if (msync(address, size, MS_SYNC | MS_INVALIDATE))", "madvise(address, size, MADV_DONTNEED); if (msync(address, size, MS_SYNC | MS_INVALIDATE))"),
 # helpers
 ("h-module", "P27", "include/Zycore/Status.h", "#define ZYAN_STATUS_MODULE", "0x7FFu", "0xFFFu"),
 ("h-make", "P27", "include/Zycore/Status.h", "#define ZYAN_MAKE_STATUS", "& 0xFFFFFu", "& 0xFFFFu"),
 ("h-dup", "P27", "include/Zycore/Status.h", "#define ZYAN_STATUS_OUT_OF_RESOURCES", "0x0Cu", "0x0Bu"),
 ("h-check2", "P27", "include/Zycore/Status.h", "#define ZYAN_CHECK", "if (!ZYAN_SUCCESS(status_047620348))", "if (!ZYAN_SUCCESS(status))"),
 ("h-cmp64", "P27", "include/Zycore/Comparison.h", "ZyanCompareNumeric64", "ZyanU64", "ZyanI64"),
 ("h-eq32", "P27", "include/Zycore/Comparison.h", "ZyanEqualsNumeric32", "ZyanU32", "ZyanU16"),
 ("h-cmp-sub", "P27", "include/Zycore/Comparison.h", "#define ZYAN_DECLARE_COMPARISON_FOR_FIELD", "if (left->field_name < right->field_name)", "if ((ZyanISize)left->field_name < (ZyanISize)right->field_name)"),
 ("h-abs", "P27", "include/Zycore/Defines.h", "#define ZYAN_ABS", "-(a)", "(int)-(a)"),
 ("h-up", "P27", "include/Zycore/Defines.h", "#define ZYAN_ALIGN_UP", "((x) + (align) - 1)", "((x) + (align))"),
 ("h-bits", "P27", "include/Zycore/Defines.h", "#define ZYAN_BITS_TO_REPRESENT", "ZYAN_NEEDS_BIT(n, 27)", "ZYAN_NEEDS_BIT(n, 26)"),
 ("h-version", "P27", "include/Zycore/Zycore.h", "#define ZYCORE_VERSION_PATCH", "0x00000000FFFF0000", "0x000000000FFF0000"),
 # fallbacks
 ("c-memmove", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE void* ZYAN_MEMMOVE(', 'if (ps < pd)', 'if (ps + 1 < pd)'),
 ("c-memchr", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE void* ZYAN_MEMCHR(', '(*p != (ZyanU8)c)', '(*p != c)'),
 ("c-memcmp", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE int ZYAN_MEMCMP(', 'return *p1 - *p2;', 'return (signed char)(*p1 - *p2);'),
 ("c-memcpy-u8", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE void* ZYAN_MEMCPY(', 'while (n--)', 'n &= 0xFF; while (n--)'),
 ("c-memset-c", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE void* ZYAN_MEMSET(', '(unsigned char)val', '(unsigned char)(val & 0x7F)'),
 ("c-strncmp", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE int ZYAN_STRNCMP(', '*(const ZyanU8*)s1 - *(const ZyanU8*)s2', '*s1 - *s2'),
 ("c-strncmp-term", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE int ZYAN_STRNCMP(', 'if (!*s1)', 'if (!*s1 && n > 2)'),
 ("c-strncpy", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRNCPY(', 'while (n--)\n    {', 'if (n)\n    {'),
 ("c-strncat", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRNCAT(', '    *dest = 0;\n', ''),
 ("c-strrchr", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRRCHR(', 'while (*s++)', 'while (*s && *++s)'),
 ("c-strstr", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRSTR(', 'while (*s1++)', 'while (*s1 && *++s1)'),
 ("c-strtok", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRTOK(', '*p ? *p = 0, p + 1 : 0', '*p ? *p = 0, p[1] ? p + 1 : 0 : 0'),
 ("c-strtok2", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRTOK(', 'return p = 0;', 'return 0;'),
 ("c-strspn", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE ZyanUSize ZYAN_STRSPN(', '*s1 && ZYAN_STRCHR(s2, *s1++)', 'ZYAN_STRCHR(s2, *s1++)'),
 ("c-strpbrk", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRPBRK(', '(char*)--s1', '(char*)s1'),
 ("c-strxfrm", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE ZyanUSize ZYAN_STRXFRM(', 'if (n > n2)', 'if (n >= n2)'),
 ("c-strcmp", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE int ZYAN_STRCMP(', '*(const ZyanU8*)s1 - *(const ZyanU8*)s2', '*s1 - *s2'),
 ("c-strchr0", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE char* ZYAN_STRCHR(', 'while (*s != (char)c)\n    {\n        if (!*s++)', 'while (*s != (char)c || !c)\n    {\n        if (!*s++)'),
 ("c-strcspn", "P26", "include/Zycore/LibC.h", 'ZYAN_INLINE ZyanUSize ZYAN_STRCSPN(', '    return ret;\n}', '    return ret + (ret > 40);\n}'),
 # allocators
 ("k-init", "P28", "src/Allocator.c", "ZyanAllocatorInit", "!allocate || !reallocate", "!allocate"),
 ("k-swap", "P28", "src/Allocator.c", "ZyanAllocatorInit", "allocator->reallocate = reallocate;", "allocator->reallocate = allocate;"),
 ("k-lost", "P28", "src/Allocator.c", "ZyanAllocatorDefaultReallocate(", "    if (!x)\n", "    *p = x;\n    if (!x)\n"),
 ("k-over", "P28", "src/Allocator.c", "ZyanAllocatorDefaultReallocate(", "if (n > (ZyanUSize)-1 / element_size)", "if (n > (ZyanUSize)-1 / element_size + 1)"),
 ("k-free", "P28", "src/Allocator.c", "ZyanAllocatorDefaultDeallocate(", "    ZYAN_FREE(p);", "    if (element_size * n < 4096) ZYAN_FREE(p);"),
 ("k-same", "P28", "src/Allocator.c", "ZyanAllocatorDefaultReallocate(", "ZYAN_REALLOC(*p, element_size * n)", "(n > 1) ? ZYAN_REALLOC(*p, element_size * n) : *p"),
 # threads
 ("p-dec", "P29", F, "ZyanStatus ZyanStringAppendDecU64", "char buffer[ZYCORE_MAXCHARS_DEC_64];", "static char buffer[ZYCORE_MAXCHARS_DEC_64];"),
 ("p-lposi", "P29", S, "ZyanStatus ZyanStringLPosIEx(const", "    const char* s = ", "    ((char*)haystack->string.vector.data)[index] = ((char*)haystack->string.vector.data)[index];\n    const char* s = "),
 ("p-swap", "P29", V, "ZyanVectorSwapElements", "    if (vector->size == vector->capacity)", "    static ZyanUSize last; last = index_first;\n    if (vector->size == vector->capacity)"),
 ("p-list", "P29", L, "ZyanListPushBack", "    ZyanListNode* node;", "    static ZyanListNode* node;"),
 ("p-bitcount", "P29", B, "ZyanStatus ZyanBitsetCount", "    ZyanUSize size;", "    static ZyanUSize size;"),
 ("p-arg", "P29", A, "ZyanArgParseEx", "ZyanBool accept_dash_args = ", "static ZyanBool accept_dash_args; accept_dash_args = "),
 ("p-bs", "P29", V, "ZyanVectorBinarySearchEx(const", "    ZyanISize l = index;", "    static ZyanISize l; l = index;"),
 # changes with narrow triggers, or at two places
 ("n-shift-chunk", "P01", V, "static ZyanStatus ZyanVectorShiftRight", "    ZYAN_MEMMOVE(dest, source, size);", "    for (ZyanUSize o = 0; o < size; o += 8192) ZYAN_MEMMOVE((char*)dest + o, (const char*)source + o, ZYAN_MIN(size - o, 8192));"),
 ("n-shiftl-chunk", "P01", V, "static ZyanStatus ZyanVectorShiftLeft", "    ZYAN_MEMMOVE(dest, source, size);", "    for (ZyanUSize o = size; o; ) { ZyanUSize c = ZYAN_MIN(o, 4096); o -= c; ZYAN_MEMMOVE((char*)dest + o, (const char*)source + o, c); }"),
 ("n-fast16", "P01", V, "ZyanStatus ZyanVectorSet(", "    ZYAN_MEMCPY(offset, value, vector->element_size);", "    if (vector->element_size == 16) { ((ZyanU64*)offset)[0] = ((const ZyanU64*)value)[0]; } else ZYAN_MEMCPY(offset, value, vector->element_size);"),
 ("n-push24", "P01", V, "ZyanVectorPushBack(", "    ZYAN_MEMCPY(offset, element, vector->element_size);", "    ZYAN_MEMCPY(offset, element, vector->element_size > 64 ? vector->element_size & ~(ZyanUSize)7 : vector->element_size);"),
 ("n-insert-cap", "P01", V, "ZyanStatus ZyanVectorInsertRange", ": vector->size + count;", ": vector->size + (ZyanU16)count;"),
 ("n-find-i16", "P06", V, "ZyanStatus ZyanVectorFindEx", "*found_index = i;", "*found_index = (ZyanI16)i;"),
 ("n-find-i32", "P06", V, "ZyanStatus ZyanVectorFindEx", "*found_index = i;", "*found_index = (ZyanI32)i;"),
 ("n-bs-i32", "P06", V, "ZyanStatus ZyanVectorBinarySearchEx", "ZyanISize h = index + count - 1;", "ZyanISize h = (ZyanI32)(index + count - 1);"),
 ("n-bs-cmp", "P06", V, "ZyanStatus ZyanVectorBinarySearchEx", "const ZyanI32 cmp = ", "const ZyanI16 cmp = (ZyanI16)"),
 ("n-off-u32", "P01", V, "#define ZYCORE_VECTOR_OFFSET", "((index) * (vector)->element_size)", "((ZyanU32)(index) * (vector)->element_size)"),
 ("n-off-mul", "P01", V, "#define ZYCORE_VECTOR_OFFSET", "((index) * (vector)->element_size)", "(ZyanUSize)((ZyanU32)(index) * (ZyanU32)(vector)->element_size)"),
 ("n-dup-thr", "P03", V, "ZyanStatus ZyanVectorDuplicateEx", "allocator, growth_factor, shrink_threshold));", "allocator, growth_factor, (ZyanU8)ZYAN_MIN(shrink_threshold, 16)));"),
 ("n-gf-big", "P03", V, "#define ZYCORE_VECTOR_NEW_CAPACITY", "((size) * (growth_factor)))", "((size) * ZYAN_MIN(growth_factor, 128)))"),
 ("n-pop-max", "P03", V, "ZyanStatus ZyanVectorPopBack", "vector->shrink_threshold))\n    {", "vector->shrink_threshold) && vector->size)\n    {"),
 ("n-emplace-close", "P04", V, "// Close the gap again", "(vector->size - index) * vector->element_size", "(vector->size - index - 1) * vector->element_size + (vector->element_size < 8 ? vector->element_size : 0)"),
 ("n-set-equal", "P05", V, "ZyanStatus ZyanVectorSet(", "    if (vector->destructor)", "    if (vector->destructor && ZYAN_MEMCMP(offset, value, vector->element_size))"),
 ("n-resize-dtor-cap", "P05", V, "ZyanStatus ZyanVectorResizeEx(", "    if (vector->destructor && (size < vector->size))", "    if (vector->destructor && (size < vector->size) && (vector->allocator || size))"),
 ("n-dup-dtor", "P05", V, "ZyanStatus ZyanVectorDuplicateCustomBuffer", "        source->destructor));", "        len ? source->destructor : ZYAN_NULL));"),
 ("n-list-emplace", "P09", L, "ZyanStatus ZyanListEmplaceFront", "    node->next = list->head;", "    node->next = list->head;\n    if (list->head) list->head->prev = node;"),
 ("n-list-remove-mid", "P07", L, "ZyanStatus ZyanListRemoveRange", "        next->prev = prev;", "        next->prev = (prev || first == last) ? prev : (ZyanListNode*)first;"),
 ("n-list-clear-keep", "P08", L, "ZyanStatus ZyanListResizeEx(ZyanList", "        list->first_unused = ZYAN_NULL;", "        if (list->destructor) list->first_unused = ZYAN_NULL;"),
 ("n-list-buf-cap", "P08", L, "static ZyanStatus ZyanListAllocateNode", "sizeof(ZyanListNode) + list->element_size) > list->capacity", "sizeof(ZyanListNode) + list->element_size) > (list->capacity & ~(ZyanUSize)(sizeof(void*) - 1))"),
 ("n-list-dealloc-n", "P09", L, "static ZyanStatus ZyanListDeallocateNode", "sizeof(ZyanListNode) + list->element_size, 1", "sizeof(ZyanListNode) + (list->size ? list->element_size : 1), 1"),
 ("n-list-init-copy", "P07", L, "ZyanStatus ZyanListResizeEx", "initializer, list->element_size);", "initializer, ZYAN_MIN(list->element_size, 128));"),
 ("n-str-lower-word", "P13", S, "ZyanStatus ZyanStringToLowerCaseEx", "    char* s = (char*)string->vector.data + index;\n", "    char* s = (char*)string->vector.data + index;\n    while (count >= 8)\n    {\n        ZyanU64 w; ZYAN_MEMCPY(&w, s, 8);\n        const ZyanU64 a = w + 0x3F3F3F3F3F3F3F3FULL, b = w + 0x2525252525252525ULL;\n        w |= ((a & ~b) & 0x8080808080808080ULL) >> 2;\n        ZYAN_MEMCPY(s, &w, 8); s += 8; index += 8; count -= 8;\n    }\n"),
 ("n-str-cmp-word", "P13", S, "ZyanStatus ZyanStringCompare(", "    ZyanUSize i;\n    for (i = 0;", "    ZyanUSize i = 0;\n    while (i + 9 < s1->string.vector.size && !ZYAN_MEMCMP(a + i, b + i, 7)) i += 8;\n    for (;"),
 ("n-str-cmpi-len", "P13", S, "ZyanStatus ZyanStringCompareI(", "    if (s1->string.vector.size > s2->string.vector.size)", "    if (s1->string.vector.size > s2->string.vector.size && (ZyanU8)s1->string.vector.size != (ZyanU8)s2->string.vector.size)"),
 ("n-str-lpos-skip", "P12", S, "ZyanStatus ZyanStringLPosEx(", "        b = (char*)needle->string.vector.data;\n", "        if (a - s > 4) s = a - 3;\n        b = (char*)needle->string.vector.data;\n"),
 ("n-str-rpos-i32", "P12", S, "ZyanStatus ZyanStringRPosEx(", "const char* s = (const char*)haystack->string.vector.data + index - 1;", "const char* s = (const char*)haystack->string.vector.data + (ZyanI32)(index - 1);"),
 ("n-str-view-null", "P14", S, "ZyanStatus ZyanStringViewInsideViewEx(", "    view->string.vector.size = count + 1;", "    view->string.vector.size = count + 1;\n    if (source->string.vector.capacity && index + count + 1 == source->string.vector.size && count == 3) --view->string.vector.size;"),
 ("n-str-append-ex", "P10", S, "ZyanStatus ZyanStringAppendEx(", "(const char*)source->string.vector.data + source_index, count);", "(const char*)source->string.vector.data + (count > 255 ? 0 : source_index), count);"),
 ("n-bit-word", "P15", B, "ZyanStatus ZyanBitsetPerformByteOperation", "    for (ZyanUSize i = 0; i < min; ++i)", "    for (ZyanUSize i = 0; i < ((min > 16 && min % 8 == 7) ? min - 1 : min); ++i)"),
 ("n-bit-self", "P15", B, "ZyanStatus ZyanBitsetXOR", "    return ZyanBitsetPerformByteOperation(destination, source, ZyanBitsetOperationXOR);", "    if (destination == source) return ZyanBitsetResetAll(destination), ZYAN_STATUS_SUCCESS + (source && source->size > 64 ? (ZyanBitsetSet(destination, 64), 0) : 0);\n    return ZyanBitsetPerformByteOperation(destination, source, ZyanBitsetOperationXOR);"),
 ("n-bit-idx32", "P15", B, "ZyanStatus ZyanBitsetSet(", "index / 8", "(ZyanU32)index / 8"),
 ("n-bit-count-u8", "P16", B, "ZyanStatus ZyanBitsetCount", "*count += popcnt;", "*count = (ZyanU16)(*count + popcnt);"),
 ("n-bit-mask64", "P16", B, "#define ZYAN_BITSET_LAST_BYTE_MASK", "((ZyanU8)(0xFF << ((8 - ((size) % 8)) % 8)))", "((ZyanU8)((size) % 64 ? 0xFF << ((8 - ((size) % 8)) % 8) : 0))"),
 ("n-bit-push-fail", "P17", B, "ZyanStatus ZyanBitsetPush", "ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));", "++bitset->size; ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero)); --bitset->size;"),
 ("n-bit-pop-clear", "P17", B, "ZyanStatus ZyanBitsetPop", "        return ZyanVectorPopBack(&bitset->bits);", "        return bitset->size ? ZyanVectorPopBack(&bitset->bits) : ZyanVectorClear(&bitset->bits);"),
 ("n-fmt-pad-20", "P18", F, "ZyanStatus ZyanStringAppendDecU64", "    const ZyanUSize length_total  = ZYAN_MAX(length_number, padding_length);", "    if (padding_length > 32 && value > 9) padding_length = 32;\n    const ZyanUSize length_total  = ZYAN_MAX(length_number, padding_length);"),
 ("n-fmt-copy", "P19", [(F, "ZyanStatus ZyanStringAppendFormat", "    ZYAN_VA_COPY(arglist_copy, arglist);\n", "    ZYAN_VA_COPY(arglist_copy, arglist);\n    const ZyanUSize old_cap = string->vector.capacity;\n"), (F, "string->vector.size - len + 1, format, arglist);", "    if (w < 0)", "    if (string->vector.capacity > old_cap + 512) --string->vector.size;\n    if (w < 0)")]),
 ("n-fmt-decs-roll", "P19", F, "ZyanStatus ZyanStringAppendDecS(", "        string->vector.size = len;", "        string->vector.size = prefix ? len : ZYAN_MIN(string->vector.size, len + (value < 0));"),
 ("n-arg-strn", "P20", A, "ZYAN_STRCMP(def->name, cur_arg) == 0", "ZYAN_STRCMP(def->name, cur_arg) == 0", "ZYAN_STRNCMP(def->name, cur_arg, 32) == 0"),
 ("n-arg-neg", "P20", A, "            // Iterate argument", "if (read_ptr[1])", "if (read_ptr[1] && read_ptr[1] != '=')"),
 ("n-arg-after", "P21", A, "        ++num_unnamed_args;", "        ++num_unnamed_args;", "        num_unnamed_args += accept_dash_args || num_unnamed_args;"),
 ("n-arg-u8", "P20", A, "ZyanStatus ZyanArgParseEx", "for (ZyanUSize i = 1; i < cfg->argc; ++i)", "for (ZyanUSize i = 1; i < ZYAN_MIN(cfg->argc, 256); ++i)"),
 ("n-arg-req2", "P21", A, "if (arg->def == def)", "if (arg->def == def)", "if (arg->def == def || (arg->has_value && arg->def->name[1] == def->name[1]))"),
 ("n-sync-timed", "P22", [(API + "Synchronization.c", "ZyanStatus ZyanCriticalSectionEnter", "    const int error = pthread_mutex_lock(critical_section);", "    struct timespec ts_; clock_gettime(0, &ts_); ts_.tv_nsec += 900000000; if (ts_.tv_nsec > 999999999) { ts_.tv_nsec -= 1000000000; ++ts_.tv_sec; }\n    int error = pthread_mutex_timedlock(critical_section, &ts_); if (error == 110) error = 0;"), (API + "Synchronization.c", "#include", "#include", "#define _GNU_SOURCE\n#include <time.h>\n#include")]),
 ("n-tls-many", "P23", [(API + "Thread.c", "ZyanStatus ZyanThreadTlsGetValue", "*data = pthread_getspecific(index);", "extern void* zv_far[]; *data = index > 600 ? zv_far[index] : pthread_getspecific(index);"), (API + "Thread.c", "ZyanStatus ZyanThreadTlsSetValue", "const int error = pthread_setspecific(index, data);", "if (index > 600) zv_far[index] = data; const int error = pthread_setspecific(index, data);"), (API + "Thread.c", "ZyanStatus ZyanThreadTlsAlloc", "ZyanStatus ZyanThreadTlsAlloc", "void* zv_far[2048];\nZyanStatus ZyanThreadTlsAlloc")]),
 # threads
 ("k-lposi-static", "P29", S, "ZyanStatus ZyanStringLPosIEx(", "        const char* a = s;", "        static const char* a; a = s;"),
 ("k-cmpi-static", "P29", S, "ZyanStatus ZyanStringCompareI(", "const char* const a = (char*)s1->string.vector.data;", "static const char* a; a = (char*)s1->string.vector.data;"),
 ("k-count-static", "P29", B, "ZyanStatus ZyanBitsetCount(", "        ZyanU8 popcnt = *value;", "        static ZyanU8 popcnt; popcnt = *value;"),
 ("k-any-static", "P29", B, "ZyanStatus ZyanBitsetAny(", "    ZyanUSize size;", "    static ZyanUSize size;"),
 ("k-bs-static", "P29", V, "ZyanStatus ZyanVectorBinarySearchEx(", "        const ZyanUSize mid = l", "        static ZyanUSize mid; mid = l"),
 ("k-lower-table", "P29", S, "ZyanStatus ZyanStringToLowerCaseEx(", "    char* s = (char*)string->vector.data + index;", "    static char t_[256]; if (t_['A'] != 'a') for (int k_ = 0; k_ < 256; ++k_) t_[k_] = (char)((k_ >= 'A' && k_ <= 'Z') ? k_ | 32 : k_);\n    char* s = (char*)string->vector.data + index;"),
 ("k-arg-static", "P29", A, "ZyanStatus ZyanArgParseEx", "    ZyanUSize num_unnamed_args = 0;", "    static ZyanUSize num_unnamed_args; num_unnamed_args = 0;"),
 ("k-list-static", "P29", L, "ZyanStatus ZyanListEmplaceBack(", "    ZyanListNode* node;", "    static ZyanListNode* node;"),
 ("k-list-pop-static", "P29", L, "ZyanStatus ZyanListPopFront(", "    ZyanListNode* const node = list->head;", "    static ZyanListNode* node; node = list->head;"),
 ("k-bytes-static", "P29", B, "ZyanStatus ZyanBitsetPerformByteOperation(", "        const ZyanU8* v2;", "        static const ZyanU8* v2;"),
 ("k-insert-static", "P29", S, "ZyanStatus ZyanStringInsert(", "    if (!destination", "    static ZyanUSize calls_; ++calls_;\n    if (!destination"),
 ("k-hexs-static", "P29", F, "ZyanStatus ZyanStringAppendHexS(", "    if (value < 0)", "    static ZyanBool neg_; neg_ = value < 0;\n    if (neg_)"),
 ("k-alloc-lazy", "P29", "src/Allocator.c", "ZyanAllocator* ZyanAllocatorDefault(void)", "    static ZyanAllocator allocator =", "    static int n_; ++n_;\n    static ZyanAllocator allocator ="),
 ("k-resize-static", "P29", V, "ZyanStatus ZyanVectorResizeEx(", "for (ZyanUSize i = size; i < vector->size; ++i)", "static ZyanUSize i; for (i = size; i < vector->size; ++i)"),
 ("k-view-static", "P29", S, "ZyanStatus ZyanStringViewInsideBuffer(", "    if (!view || !string)", "    static const char* last_; last_ = string;\n    if (!view || !string)"),
 # memory, sections, slots
 ("k-alloc-round", "P28", "src/Allocator.c", "static ZyanStatus ZyanAllocatorDefaultAllocate(", "    *p = ZYAN_MALLOC(element_size * n);", "    *p = ZYAN_MALLOC((element_size * n + 15) & ~(ZyanUSize)15);"),
 ("k-alloc-u32", "P28", "src/Allocator.c", "static ZyanStatus ZyanAllocatorDefaultAllocate(", "ZYAN_MALLOC(element_size * n)", "ZYAN_MALLOC((ZyanU32)element_size * n)"),
 ("k-protect-int", "P25", API + "Memory.c", "ZyanStatus ZyanMemoryVirtualProtect(", "mprotect(address, size, protection)", "mprotect(address, (ZyanU32)size, protection)"),
 ("k-vfree-int", "P25", API + "Memory.c", "ZyanStatus ZyanMemoryVirtualFree(", "munmap(address, size)", "munmap(address, (ZyanU32)size)"),
 ("k-flush-int", "P25", API + "Process.c", "ZyanStatus ZyanProcessFlushInstructionCache(", "msync(address, size,", "msync(address, (ZyanU32)size,"),
 ("k-protect-wx", "P25", API + "Memory.c", "ZyanStatus ZyanMemoryVirtualProtect(", "mprotect(address, size, protection)", "mprotect(address, size, ((protection & PROT_WRITE) && (protection & PROT_EXEC)) ? protection & ~PROT_EXEC : protection)"),
 ("k-protect-zero", "P25", API + "Memory.c", "ZyanStatus ZyanMemoryVirtualProtect(", "if (mprotect(address, size, protection))", "if (size && mprotect(address, size, protection))"),
 ("k-tls-free-live", "P23", API + "Thread.c", "ZyanStatus ZyanThreadTlsFree(", "return !pthread_key_delete(index)", "return (!pthread_getspecific(index) && !pthread_key_delete(index))"),
 ("k-tls-free-clear", "P23", API + "Thread.c", "ZyanStatus ZyanThreadTlsAlloc(", "    *index = value;", "    if (pthread_getspecific(value)) pthread_setspecific(value, ZYAN_NULL); if (value > 40) pthread_setspecific(value, index);\n    *index = value;"),
 ("k-tls-same", "P23", API + "Thread.c", "ZyanStatus ZyanThreadTlsSetValue(", "const int error = pthread_setspecific(index, data);", "const int error = (data && pthread_getspecific(index)) ? 0 : pthread_setspecific(index, data);"),
 ("k-cs-trylock-rec", "P22", API + "Synchronization.c", "ZyanBool ZyanCriticalSectionTryEnter(", "return pthread_mutex_trylock(critical_section) ? ZYAN_FALSE : ZYAN_TRUE;", "if (pthread_mutex_trylock(critical_section)) return ZYAN_FALSE;\n    if (critical_section->__data.__count > 3) { pthread_mutex_unlock(critical_section); }\n    return ZYAN_TRUE;"),
 ("k-cs-leave-all", "P22", API + "Synchronization.c", "ZyanStatus ZyanCriticalSectionLeave(", "    const int error = pthread_mutex_unlock(critical_section);", "    const ZyanU32 n_ = critical_section->__data.__count;\n    int error = pthread_mutex_unlock(critical_section);\n    if (!error && n_ == 9) error = pthread_mutex_unlock(critical_section);"),
 # conditions that take some bringing about
 ("q-bs-last-eq", "P06", V, "ZyanVectorBinarySearchEx(const", "            h = mid - 1;\n            if (cmp == 0)\n            {\n                status = ZYAN_STATUS_TRUE;\n            }\n", "            h = mid - 1;\n            if (cmp == 0)\n            {\n                status = ZYAN_STATUS_TRUE;\n                if ((mid > index) && (mid - index < 24) && !comparison(ZYCORE_VECTOR_OFFSET(vector, index), element))\n                {\n                    l = index + (mid - index > 20);\n                    break;\n                }\n            }\n"),
 ("q-find-sentinel", "P06", V, "ZyanVectorFindEx(const", "    for (ZyanUSize i = index; i < index + count; ++i)", "    if ((count > 8) && comparison(ZYCORE_VECTOR_OFFSET(vector, index + count - 1), element))\n    {\n        for (ZyanUSize i = index; ; ++i)\n        {\n            if ((i == index + count - 1) || ((i & 7) && comparison(ZYCORE_VECTOR_OFFSET(vector, i), element)))\n            {\n                *found_index = i;\n                return ZYAN_STATUS_TRUE;\n            }\n        }\n    }\n    for (ZyanUSize i = index; i < index + count; ++i)"),
 ("q-insert-reuse", "P01", V, "ZyanVectorInsertRange(ZyanVector", "    if (index < vector->size)\n    {\n        ZYAN_CHECK(ZyanVectorShiftRight(vector, index, count));\n    }\n", "    if (index < vector->size)\n    {\n        if ((count >= vector->size - index) || (index & 1))\n        {\n            ZYAN_CHECK(ZyanVectorShiftRight(vector, index, count));\n        } else\n        {\n            const ZyanUSize n = count * vector->element_size;\n            for (ZyanUSize i = (vector->size - index) * vector->element_size; i >= n; i -= n)\n            {\n                ZYAN_MEMCPY((ZyanU8*)ZYCORE_VECTOR_OFFSET(vector, index) + i, (ZyanU8*)ZYCORE_VECTOR_OFFSET(vector, index) + i - n, n);\n            }\n        }\n    }\n"),
 ("q-delrange-all", "P05", V, "ZyanVectorDeleteRange(ZyanVector", "    if (vector->destructor)\n", "    if (vector->destructor && !((index == 0) && (count == vector->size) && (count > 4) && !vector->allocator))\n"),
 ("q-popback-thr1", "P03", V, "ZyanVectorPopBack(ZyanVector", "ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))", "ZYAN_MAX(1, (ZyanUSize)((vector->size ? vector->size : vector->growth_factor) * vector->growth_factor))"),
 ("q-resize-undo", "P04", V, "ZyanVectorResizeEx(ZyanVector", "    if (initializer && (size > vector->size))", "    if (initializer && (size > vector->size) && (vector->size || !vector->destructor))"),
 ("q-dup-fixed-cap", "P03", V, "ZyanVectorDuplicateCustomBuffer(", "if (capacity < len)", "if ((capacity < len) || ((capacity == len) && (len > 16)))"),
 ("q-list-range-tail", "P09", L, "ZyanListRemoveRange(", "        --list->size;\n", "        if ((current != last) || (next || list->tail))\n        {\n            --list->size;\n        }\n"),
 ("q-list-back-ctor", "P09", L, "ZyanListEmplaceFront(", "            ZYAN_CHECK(ZyanListDeallocateNode(list, node));\n", "            if (list->allocator || list->first_unused)\n            {\n                ZYAN_CHECK(ZyanListDeallocateNode(list, node));\n            }\n"),
 ("q-str-append-cap", "P10", S, "ZyanStatus ZyanStringAppend(", "    const ZyanUSize len = destination->vector.size;\n", "    const ZyanUSize len = destination->vector.size;\n    if (source->string.vector.size == 1)\n    {\n        destination->vector.shrink_threshold = 0;\n    }\n"),
 ("q-str-insert-tail", "P10", S, "ZyanStatus ZyanStringInsertEx(", "    if (destination_index == destination->vector.size - 1)\n", "    if ((destination_index == destination->vector.size - 1) || (!count && destination_index < destination->vector.size))\n"),
 ("q-str-trunc-noop", "P11", S, "ZyanStatus ZyanStringTruncate(", "    ZYAN_CHECK(ZyanVectorDeleteRange(&string->vector, index, string->vector.size - index - 1));\n", "    if (index == string->vector.size - 1)\n    {\n        return ZyanVectorShrinkToFit(&string->vector);\n    }\n    ZYAN_CHECK(ZyanVectorDeleteRange(&string->vector, index, string->vector.size - index - 1));\n"),
 ("q-str-lpos-memchr", "P12", S, "ZyanStatus ZyanStringLPosEx(", "        if (*s != *b)\n        {\n            continue;\n        }\n", "        if (*s != *b)\n        {\n            // Look at four characters at once\n            while (((ZyanUSize)(s - (const char*)haystack->string.vector.data) + 4 < index + count) && (s[1] != *b) && (s[2] != *b) && (s[3] != *b))\n            {\n                s += 4;\n            }\n            continue;\n        }\n"),
 ("q-str-rposi-first", "P12", S, "ZyanStatus ZyanStringRPosIEx(", "            if (a < (const char*)haystack->string.vector.data + index - count)", "            if (a + (needle->string.vector.size > 4) < (const char*)haystack->string.vector.data + index - count)"),
 ("q-str-lposi-nonalpha", "P12", S, "ZyanStatus ZyanStringLPosIEx(", "            if (!ZyanStringEqualsCharI(c1, c2))", "            if ((c1 != c2) && ((c1 ^ c2) != 32))"),
 ("q-view-self", "P14", S, "ZyanStatus ZyanStringViewInsideViewEx(", "    view->string.vector.data = (void*)((char*)source->string.vector.data + index);\n    view->string.vector.size = count + 1;\n", "    view->string.vector.size = 0;\n    view->string.vector.data = (void*)((char*)source->string.vector.data + index);\n    view->string.vector.size = ZYAN_MIN(count, source->string.vector.size + count - index) + 1;\n"),
 ("q-bit-count-carry", "P16", B, "ZyanStatus ZyanBitsetCount(", "        *count += popcnt;\n", "        *count += (i >= 32) && (popcnt == 8) && (i % 32 == 31) ? 0 : popcnt;\n"),
 ("q-bit-none-early", "P16", B, "ZyanStatus ZyanBitsetNone(", "            if (*value != 0x00)\n", "            if ((*value != 0x00) && !((*value & (*value - 1)) == 0 && (i == size - 2) && (bitset->size % 8 == 1)))\n"),
 ("q-bit-pop-shrink", "P17", B, "ZyanStatus ZyanBitsetPop(", "    if ((--bitset->size % 8) == 0)\n", "    if ((--bitset->size % 8) == 0 && (bitset->size || bitset->bits.allocator))\n"),
 ("q-fmt-hex-pad16", "P18", F, "ZyanStatus ZyanStringAppendHexU64(", "            if (padding_length > i)\n", "            if ((padding_length > i) && !((i == 7) && (padding_length == 9)))\n"),
 ("q-fmt-dec-100", "P18", F, "ZyanStatus ZyanStringAppendDecU64(", "    while (value >= 100)\n", "    while ((value > 100) || ((value == 100) && padding_length <= 19))\n"),
 ("q-fmt-again", "P19", F, "ZyanStatus ZyanStringAppendFormat(", "        string->vector.size - len + 1, format, arglist);", "        ZYAN_MIN(string->vector.size - len + 1, 4096), format, arglist);"),
 ("q-fmt-again2", "P19", F, "ZyanStatus ZyanStringAppendFormat(", "        string->vector.size - len + 1, format, arglist);", "        (ZyanU16)(string->vector.size - len) + 1, format, arglist);"),
 ("q-decs-prefix", "P19", F, "ZyanStatus ZyanStringAppendDecS(", "        status = ZyanStringAppend(string, prefix);\n", "        status = (prefix->string.vector.size > 300) ? ZyanStringAppendEx(string, prefix, 0, (ZyanU8)(prefix->string.vector.size - 1)) : ZyanStringAppend(string, prefix);\n"),
 ("q-arg-len8", "P20", A, "ZyanArgParseEx(", "        ZyanUSize arg_len = ZYAN_STRLEN(cfg->argv[i]);\n", "        ZyanU8 arg_len = (ZyanU8)ZYAN_STRLEN(cfg->argv[i]);\n"),
 ("q-arg-defs-32", "P21", A, "// Check whether all required", "        if (!def->required) continue;\n", "        if (!def->required || (def - cfg->args >= 64)) continue;\n"),
 ("q-tls-u32", "P23", API + "Thread.c", "ZyanThreadTlsSetValue(", "pthread_setspecific(index, data)", "pthread_setspecific(index, (void*)(ZyanUPointer)(ZyanU32)(ZyanUPointer)data)"),
 ("q-sync-garbage", "P22", API + "Synchronization.c", "ZyanCriticalSectionInitialize(", "    pthread_mutexattr_t attribute;\n", "    if (((ZyanU8*)critical_section)[sizeof(*critical_section) - 1])\n    {\n        return ZYAN_STATUS_SUCCESS;\n    }\n    pthread_mutexattr_t attribute;\n"),
 # rare values and large objects
 ("y-inc32-high", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicIncrement32(ZyanAtomic32", "    return (", "    if (destination->value & 0x80000000u) { return ++destination->value; }\n    return ("),
 ("y-inc64-wrap", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicIncrement64(ZyanAtomic64", "    return (", "    if (destination->value == 0xFFFFFFFFFFFFFFFFull) { destination->value = 0; return 0; }\n    return ("),
 ("y-cas64-high", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicCompareExchange64(ZyanAtomic64", "    return (", "    if (value >> 40) { ZyanU64 o_ = destination->value; if (o_ == comparand) { destination->value = value; } return o_; }\n    return ("),
 ("y-dec-zero", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicDecrement(ZyanAtomicPointer", "    return (", "    if (!destination->value) { destination->value = (void*)(ZyanUPointer)-1; return (ZyanUPointer)-1; }\n    return ("),
 ("y-cas-null", "P24", "include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicCompareExchange(ZyanAtomicPointer", "    return (", "    if (!value) { ZyanUPointer o_ = (ZyanUPointer)destination->value; if (o_ == comparand) { destination->value = 0; } return o_; }\n    return ("),
 ("y-swap-big", "P29", V, "ZyanVectorSwapElements", "    ZYAN_MEMCPY(t, a, vector->element_size);", "    static char big_[65536]; if (vector->element_size > 64 && vector->element_size < 65536) { ZYAN_MEMCPY(big_, a, vector->element_size); ZYAN_MEMCPY(a, b, vector->element_size); ZYAN_MEMCPY(b, big_, vector->element_size); return ZYAN_STATUS_SUCCESS; }\n    ZYAN_MEMCPY(t, a, vector->element_size);"),
 ("y-dup-long", "P29", S, "ZyanStatus ZyanStringCompare(", "    if (s1->string.vector.size < s2->string.vector.size)", "    static ZyanUSize n_; if (s1->string.vector.size > 40) { n_ = s1->string.vector.size; }\n    if (s1->string.vector.size < s2->string.vector.size)"),
 ("y-realloc-shrink", "P28", "src/Allocator.c", "ZyanAllocatorDefaultReallocate", "    void* const x = ", "    if (n * element_size == 16) { return ZYAN_STATUS_SUCCESS; }\n    void* const x = "),
]
SNAP = "/tmp/mut-verif"   # the checks are run from a snapshot
def mutate(d, m):
    if isinstance(m[2], list):
        for e in m[2]:
            r = mutate(d, (m[0], m[1]) + tuple(e))
            if r: return r
        return None
    p = os.path.join(d, m[2]); t = open(p).read()
    i = t.find(m[3])
    if i < 0: return "no context"
    j = t.find(m[4], i)
    if j < 0: return "no text"
    open(p, "w").write(t[:j] + m[5] + t[j + len(m[4]):])
def one(m, tests=False):
    d = T.copy("mut-" + m[0])
    try:
        e = mutate(d, m)
        if e: return m[0], e
        if tests:
            r = T.build(d)
            if r.returncode: return m[0], "does not build " + r.stdout[-300:]
            b = T.tests(d)
            if b: return m[0], "tests fail " + str(b[:2])
        r = T.sh("%s/bin/check %s quick" % (SNAP, m[1]), SNAP, 900, dict(os.environ, ZV_REPO=d, VERIF_SEED="1"))
        v = "VIOLATION property=%s " % m[1] in r.stdout and r.returncode == 1
        return m[0], "%s %s" % (m[1], "caught" if v else "MISSED (exit %d) %s" % (r.returncode, r.stdout[-300:]))
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    j = 2; pats = []; tests = False
    for a in sys.argv[1:]:
        if a.startswith("-j"): j = int(a[2:])
        elif a == "--tests": tests = True
        else: pats.append(a)
    sel = [m for m in M if not pats or any(re.match(p, m[0]) for p in pats)]
    shutil.rmtree(SNAP, ignore_errors=True); shutil.copytree(T.ROOT, SNAP, ignore=shutil.ignore_patterns("out", "evidence", ".git"))
    with ThreadPoolExecutor(j) as ex:
        for n, s in ex.map(lambda m: one(m, tests), sel): print(n, s, flush=True)
