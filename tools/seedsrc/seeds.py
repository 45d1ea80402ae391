"""Planted bugs: (file, context, old, new) edits; the first `old` behind `context` becomes `new`."""
V, L, S, B, F, A = "src/Vector.c", "src/List.c", "src/String.c", "src/Bitset.c", "src/Format.c", "src/ArgParse.c"
SEEDS = [
dict(id="p01-emplace-stale", property="P01",
 needs="an emplacement that grows the vector, with an allocator (or heap state) that moves the block",
 breaks="the slot handed to the caller and the constructor is computed before the storage is reallocated",
 edits=[(V, "ZyanVectorEmplaceEx(", "    if (ZYCORE_VECTOR_SHOULD_GROW(", "    *element = ZYCORE_VECTOR_OFFSET(vector, index);\n    if (ZYCORE_VECTOR_SHOULD_GROW("),
        (V, "ZyanVectorShiftRight(vector, index, 1)", "    *element = ZYCORE_VECTOR_OFFSET(vector, index);\n", "")],
 demo=r'''
int main(void)
{
    ZyanVector v; OK(ZyanVectorInitEx(&v, 8, 1, 0, &T, 2, 4));
    for (uint64_t i = 0; i < 9; ++i) { uint64_t *e; OK(ZyanVectorEmplace(&v, (void**)&e, 0)); *e = i * 3 + 1; }
    for (uint64_t i = 0; i < 9; ++i) CHECK(*(const uint64_t*)ZyanVectorGet(&v, i) == i * 3 + 1);
    OK(ZyanVectorDestroy(&v)); CHECK(!t_live()); return 0;
}'''),
dict(id="p01-swap-words", property="P01",
 needs="swapping elements whose size is larger than eight bytes and not a multiple of eight",
 breaks="elements are swapped in whole machine words, the remaining bytes stay where they were",
 edits=[(V, "ZyanVectorSwapElements(", "    ZYAN_MEMCPY(t, a, vector->element_size);\n    ZYAN_MEMCPY(a, b, vector->element_size);\n    ZYAN_MEMCPY(b, t, vector->element_size);\n",
 "    const ZyanUSize size = (vector->element_size > sizeof(ZyanU64)) ?\n        (vector->element_size & ~(sizeof(ZyanU64) - 1)) : vector->element_size;\n    ZYAN_MEMCPY(t, a, size);\n    ZYAN_MEMCPY(a, b, size);\n    ZYAN_MEMCPY(b, t, size);\n")],
 demo=r'''
int main(void)
{
    struct { uint32_t a[3]; } x = {{1, 2, 3}}, y = {{4, 5, 6}}; ZyanVector v; OK(ZyanVectorInit(&v, sizeof x, 8, 0));
    OK(ZyanVectorPushBack(&v, &x)); OK(ZyanVectorPushBack(&v, &y)); OK(ZyanVectorSwapElements(&v, 0, 1));
    CHECK(!memcmp(ZyanVectorGet(&v, 0), &y, sizeof x)); CHECK(!memcmp(ZyanVectorGet(&v, 1), &x, sizeof x));
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p02-insert-wrap", property="P02",
 needs="an insertion at an index behind the end that is still below the capacity",
 breaks="the insertion index is compared with the capacity instead of the size",
 edits=[(V, "ZyanVectorInsertRange(ZyanVector", "if (index > vector->size)", "if (index > ZYAN_MAX(vector->size, vector->capacity - 1))")],
 demo=r'''
int main(void)
{
    uint32_t x = 7, y[2] = {8, 9}; ZyanVector v; ZyanUSize n; OK(ZyanVectorInit(&v, sizeof x, 16, 0)); OK(ZyanVectorPushBack(&v, &x));
    CHECK(ZyanVectorInsertRange(&v, 3, y, 2) == ZYAN_STATUS_OUT_OF_RANGE); OK(ZyanVectorGetSize(&v, &n)); CHECK(n == 1);
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p03-reserve-shrinks", property="P03",
 needs="reserving less than the current capacity",
 breaks="reserving reallocates to any different capacity, even one below the size",
 edits=[(V, "ZyanVectorReserve(", "if (capacity > vector->capacity)", "if (capacity != vector->capacity)")],
 demo=r'''
int main(void)
{
    uint32_t x = 7; ZyanVector v; ZyanUSize n; OK(ZyanVectorInitEx(&v, sizeof x, 16, 0, &T, 2, 4));
    for (int i = 0; i < 9; ++i) OK(ZyanVectorPushBack(&v, &x));
    OK(ZyanVectorReserve(&v, 4)); OK(ZyanVectorGetCapacity(&v, &n)); CHECK(n == 16); OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p03-shrink-empty", property="P03",
 needs="shrinking the storage of an empty growable vector whose capacity is above one",
 breaks="the minimum capacity is applied to the bookkeeping, but not to the request made to the allocator, so the vector returns a block of another size than it obtained",
 edits=[(V, "static ZyanStatus ZyanVectorReallocate", "            capacity = ZYAN_VECTOR_MIN_CAPACITY;\n", "            vector->capacity = ZYAN_VECTOR_MIN_CAPACITY;\n            return ZYAN_STATUS_SUCCESS;\n")],
 demo=r'''
int main(void)
{
    ZyanVector v; OK(ZyanVectorInitEx(&v, 4, 16, 0, &T, 2, 4)); OK(ZyanVectorShrinkToFit(&v)); OK(ZyanVectorDestroy(&v)); CHECK(!t_live()); return 0;
}'''),
dict(id="p04-pop-shrink-refused", property="P04",
 needs="an allocator that refuses the shrinking reallocation of a pop",
 breaks="the size is decremented only after the storage was given back, so a refusal leaves an already destructed element in the vector",
 edits=[(V, "ZyanVectorPopBack(", "    --vector->size;\n    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))\n    {\n        return ZyanVectorReallocate(vector,\n            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));\n    }\n",
 "    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size - 1, vector->capacity, vector->shrink_threshold))\n    {\n        ZYAN_CHECK(ZyanVectorReallocate(vector,\n            ZYAN_MAX(1, (ZyanUSize)((vector->size - 1) * vector->growth_factor))));\n    }\n    --vector->size;\n")],
 demo=r'''
static int calls; static void dtor(void *p) { ++calls; }
int main(void)
{
    uint32_t x; ZyanUSize n; ZyanVector v; OK(ZyanVectorInitEx(&v, 4, 3, dtor, &T, 1, 1));
    for (x = 1; x < 4; ++x) OK(ZyanVectorPushBack(&v, &x));
    refuse_in = 0; ZyanVectorPopBack(&v); OK(ZyanVectorGetSize(&v, &n)); CHECK(n + calls == 3); OK(ZyanVectorDestroy(&v)); CHECK(calls == 3); return 0;
}'''),
dict(id="p04-shrink-ignored", property="P04",
 needs="an allocator that refuses the reallocation of shrinking to fit",
 breaks="the refusal is not reported",
 edits=[(V, "ZyanStatus ZyanVectorShrinkToFit(", "    return ZyanVectorReallocate(vector, vector->size);", "    // Giving back memory is optional\n    if (vector->size < vector->capacity)\n    {\n        (void)ZyanVectorReallocate(vector, vector->size);\n    }\n    return ZYAN_STATUS_SUCCESS;")],
 demo=r'''
int main(void)
{
    uint32_t x = 7; ZyanVector v; OK(ZyanVectorInitEx(&v, 4, 9, 0, &T, 2, 4)); OK(ZyanVectorPushBack(&v, &x)); refuse_in = 0;
    CHECK(ZyanVectorShrinkToFit(&v) == ZYAN_STATUS_NOT_ENOUGH_MEMORY); return 0;
}'''),
dict(id="p05-pop-late-dtor", property="P05",
 needs="a destructor and a pop that gives storage back (growth factor 1, non-zero shrink threshold)",
 breaks="the destructor runs after the storage was shrunk, on memory the vector no longer owns",
 edits=[(V, "ZyanVectorPopBack(", "    if (vector->destructor)\n    {\n         vector->destructor(ZYCORE_VECTOR_OFFSET(vector, vector->size - 1));\n    }\n\n    --vector->size;\n    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))\n    {\n        return ZyanVectorReallocate(vector,\n            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));\n    }\n\n    return",
 "    ZyanStatus status = ZYAN_STATUS_SUCCESS;\n    --vector->size;\n    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))\n    {\n        status = ZyanVectorReallocate(vector,\n            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));\n    }\n    if (vector->destructor)\n    {\n        vector->destructor(ZYCORE_VECTOR_OFFSET(vector, vector->size));\n    }\n\n    return status;\n    return")],
 demo=r'''
static uint32_t seen; static void dtor(void *p) { seen = *(uint32_t*)p; }
int main(void)
{
    uint32_t x; ZyanVector v; OK(ZyanVectorInitEx(&v, 4, 3, dtor, &T, 1, 1));
    for (x = 1; x < 4; ++x) OK(ZyanVectorPushBack(&v, &x));
    OK(ZyanVectorPopBack(&v)); CHECK(seen == 3); OK(ZyanVectorPopBack(&v)); CHECK(seen == 2); return 0;
}'''),
dict(id="p05-set-late-dtor", property="P05",
 needs="overwriting an element of a vector with a destructor",
 breaks="the destructor is called after the new value was copied and sees the new value",
 edits=[(V, "ZyanStatus ZyanVectorSet(", "    if (vector->destructor)\n    {\n        vector->destructor(offset);\n    }\n    ZYAN_MEMCPY(offset, value, vector->element_size);\n", "    ZYAN_MEMCPY(offset, value, vector->element_size);\n    if (vector->destructor)\n    {\n        vector->destructor(offset);\n    }\n")],
 demo=r'''
static uint32_t seen; static void dtor(void *p) { seen = *(uint32_t*)p; }
int main(void)
{
    uint32_t x = 1, y = 2; ZyanVector v; OK(ZyanVectorInit(&v, 4, 3, dtor)); OK(ZyanVectorPushBack(&v, &x)); OK(ZyanVectorSet(&v, 0, &y)); CHECK(seen == 1);
    OK(ZyanVectorDestroy(&v)); CHECK(seen == 2); return 0;
}'''),
dict(id="p06-bs-first-hit", property="P06",
 needs="a sorted vector with several equal elements, not all probed first",
 breaks="the binary search stops at whichever matching element it probes first",
 edits=[(V, "ZyanVectorBinarySearchEx(const", "                status = ZYAN_STATUS_TRUE;\n", "                *found_index = mid;\n                return ZYAN_STATUS_TRUE;\n")],
 demo=r'''
static ZYAN_DECLARE_COMPARISON(cmp, uint32_t)
int main(void)
{
    uint32_t a[] = {1, 4, 4, 4, 4, 4, 9}; ZyanVector v; OK(ZyanVectorInit(&v, 4, 3, 0)); OK(ZyanVectorInsertRange(&v, 0, a, 7));
    ZyanUSize i; uint32_t k = 4; CHECK(ZyanVectorBinarySearch(&v, &k, &i, (ZyanComparison)cmp) == ZYAN_STATUS_TRUE); CHECK(i == 1);
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p06-bs-sub-range", property="P06",
 needs="a binary search in a proper sub-range whose next element matches",
 breaks="the upper bound of the search includes the element behind the range",
 edits=[(V, "ZyanVectorBinarySearchEx(const", "    ZyanISize h = index + count - 1;", "    ZyanISize h = ZYAN_MIN(index + count, vector->size - 1);")],
 demo=r'''
static ZYAN_DECLARE_COMPARISON(cmp, uint32_t)
int main(void)
{
    uint32_t a[] = {1, 2, 3, 4, 5}; ZyanVector v; OK(ZyanVectorInit(&v, 4, 3, 0)); OK(ZyanVectorInsertRange(&v, 0, a, 5));
    ZyanUSize i; uint32_t k = 4; CHECK(ZyanVectorBinarySearchEx(&v, &k, &i, (ZyanComparison)cmp, 1, 2) == ZYAN_STATUS_FALSE); CHECK(i == 3);
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p07-pop-front-prev", property="P07",
 needs="popping from the front of a list and walking it backwards afterwards, or popping the rest from the back",
 breaks="the new head keeps its link to the removed node",
 edits=[(L, "ZyanStatus ZyanListPopFront(", "    if (list->head)\n    {\n        list->head->prev = ZYAN_NULL;\n    }\n    if (list->tail == node)\n    {\n        list->tail = list->head;\n    }", "    if (!list->head)\n    {\n        list->tail = ZYAN_NULL;\n    } else if (list->head == list->tail)\n    {\n        list->head->prev = ZYAN_NULL;\n    }")],
 demo=r'''
int main(void)
{
    ZyanList l; int n = 0; OK(ZyanListInit(&l, 4, 0)); for (uint32_t x = 1; x < 5; ++x) OK(ZyanListPushBack(&l, &x));
    OK(ZyanListPopFront(&l)); const ZyanListNode *p; OK(ZyanListGetHeadNode(&l, &p)); OK(ZyanListGetPrevNode(&p)); CHECK(!p); return 0;
}'''),
dict(id="p07-resize-grow-empty", property="P07",
 needs="growing an empty list by a resize to more than one item",
 breaks="the tail is not advanced while the first items are appended to an empty list",
 edits=[(L, "ZyanStatus ZyanListResizeEx(", "            if (!list->head)\n            {\n                list->head = node;\n                list->tail = node;\n            } else\n            {\n                list->tail->next = node;\n                list->tail = node;\n            }", "            if (!list->head)\n            {\n                list->head = node;\n            } else\n            {\n                list->tail->next = node;\n            }\n            list->tail = (initializer || !node->prev || node->prev->prev) ? node : list->tail;")],
 demo=r'''
int main(void)
{
    ZyanList l; int n = 0; OK(ZyanListInit(&l, 4, 0)); OK(ZyanListResize(&l, 5)); const ZyanListNode *p; OK(ZyanListGetHeadNode(&l, &p));
    while (p) { ++n; OK(ZyanListGetNextNode(&p)); CHECK(n < 9); } CHECK(n == 5); return 0;
}'''),
dict(id="p08-clear-reuse", property="P08",
 needs="a fixed-buffer list that had items removed, was cleared and is filled again",
 breaks="the unused nodes are still remembered after the list was cleared, so nodes are handed out twice",
 edits=[(L, "ZyanStatus ZyanListResizeEx(", "        list->first_unused = ZYAN_NULL;\n", "        if (is_dynamic)\n        {\n            list->first_unused = ZYAN_NULL;\n        }\n")],
 demo=r'''
int main(void)
{
    static _Alignas(16) char buf[1000]; ZyanList l; OK(ZyanListInitCustomBuffer(&l, 8, 0, buf, 5 * (sizeof(ZyanListNode) + 8)));
    for (uint64_t x = 1; x < 4; ++x) OK(ZyanListPushBack(&l, &x));
    OK(ZyanListPopBack(&l)); OK(ZyanListClear(&l));
    for (uint64_t x = 1; x < 5; ++x) OK(ZyanListPushBack(&l, &x));
    const ZyanListNode *p; uint64_t k = 0; OK(ZyanListGetHeadNode(&l, &p));
    while (p && k < 9) { CHECK(*(const uint64_t*)ZyanListGetNodeData(p) == ++k); OK(ZyanListGetNextNode(&p)); } CHECK(k == 4); return 0;
}'''),
dict(id="p08-last-slot", property="P08",
 needs="a buffer whose size is not a multiple of the node size",
 breaks="the free space test only asks for room for the node header, the data of the last item lies behind the buffer",
 edits=[(L, "static ZyanStatus ZyanListAllocateNode", "if (size + (sizeof(ZyanListNode) + list->element_size) > list->capacity)", "if (size + sizeof(ZyanListNode) >= list->capacity)")],
 demo=r'''
int main(void)
{
    static _Alignas(16) char buf[1000]; ZyanList l; uint64_t x[8] = {0}; OK(ZyanListInitCustomBuffer(&l, 64, 0, buf, sizeof(ZyanListNode) + 64 + sizeof(ZyanListNode) + 20));
    OK(ZyanListPushBack(&l, x)); CHECK(ZyanListPushBack(&l, x) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); return 0;
}'''),
dict(id="p09-set-late-dtor", property="P09",
 needs="overwriting the data of a node of a list with a destructor",
 breaks="the destructor is called on the new data",
 edits=[(L, "ZyanStatus ZyanListSetNodeData(", "    if (list->destructor)\n    {\n        list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));\n    }\n\n    ZYAN_ASSERT(list->element_size);\n    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), value, list->element_size);\n", "    ZYAN_ASSERT(list->element_size);\n    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), value, list->element_size);\n    if (list->destructor)\n    {\n        list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));\n    }\n")],
 demo=r'''
static uint32_t seen; static void dtor(void *p) { seen = *(uint32_t*)p; }
int main(void)
{
    uint32_t x = 1, y = 2; ZyanList l; const ZyanListNode *p; OK(ZyanListInit(&l, 4, dtor)); OK(ZyanListPushBack(&l, &x)); OK(ZyanListGetHeadNode(&l, &p));
    OK(ZyanListSetNodeData(&l, p, &y)); CHECK(seen == 1); OK(ZyanListDestroy(&l)); CHECK(seen == 2); return 0;
}'''),
dict(id="p09-resize-dtor", property="P09",
 needs="shrinking a list with a destructor to a size other than zero",
 breaks="shrinking destructs the items that are counted from the new tail, one too few",
 edits=[(L, "        for (ZyanUSize i = size; i < list->size; ++i)\n", "            if (list->destructor)", "            if (list->destructor && (i != size || size == 1))")],
 demo=r'''
static int calls; static void dtor(void *p) { ++calls; }
int main(void)
{
    ZyanList l; OK(ZyanListInit(&l, 4, dtor)); for (uint32_t x = 1; x < 7; ++x) OK(ZyanListPushBack(&l, &x));
    OK(ZyanListResize(&l, 3)); CHECK(calls == 3); OK(ZyanListDestroy(&l)); CHECK(calls == 6); return 0;
}'''),
dict(id="p10-append-strncpy", property="P10",
 needs="appending text with an embedded zero character",
 breaks="the appended characters are copied up to the first zero only",
 edits=[(S, "ZyanStatus ZyanStringAppend(", "    ZYAN_MEMCPY((char*)destination->vector.data + len - 1, source->string.vector.data,\n", "    ZYAN_STRNCPY((char*)destination->vector.data + len - 1, source->string.vector.data,\n")],
 demo=r'''
int main(void)
{
    ZyanString s; ZyanStringView v = sv("ab\0cd", 5); OK(ZyanStringInit(&s, 2)); OK(ZyanStringAppend(&s, &v)); OK(ZyanStringAppend(&s, &v));
    is_text(&s, "ab\0cdab\0cd", 10); OK(ZyanStringDestroy(&s)); return 0;
}'''),
dict(id="p10-concat-cap", property="P10",
 needs="duplicating text with a requested capacity below its length",
 breaks="the capacity of a duplicate is the requested one, the text does not fit",
 edits=[(S, "ZyanStatus ZyanStringConcatEx(", "    capacity = ZYAN_MAX(capacity, len - 1);", "    capacity = capacity ? capacity : len - 1;")],
 demo=r'''
int main(void)
{
    static char a[300], b[300], c[600]; memset(a, 'a', 300); memset(b, 'b', 300); memcpy(c, a, 300); memcpy(c + 300, b, 300);
    ZyanString s; ZyanStringView v = sv(a, 300), w = sv(b, 300); ZyanUSize n;
    OK(ZyanStringConcatEx(&s, &v, &w, 400, &T, 2, 4)); is_text(&s, c, 600); OK(ZyanStringGetCapacity(&s, &n)); CHECK(n >= 600); OK(ZyanStringDestroy(&s)); return 0;
}'''),
dict(id="p11-fixed-append-term", property="P11",
 needs="inserting into the middle of a string on a fixed buffer that is just too small for the terminating zero",
 breaks="the fixed buffer may be exceeded by one character",
 edits=[(V, "static ZyanStatus ZyanVectorReallocate", "        if (vector->capacity < capacity)\n", "        if (vector->capacity + (vector->element_size == 1) < capacity)\n")],
 demo=r'''
int main(void)
{
    char buf[16] = "...............", t; ZyanString s; ZyanStringView v = sv("abcd", 4); OK(ZyanStringInitCustomBuffer(&s, buf, 8)); t = buf[8];
    OK(ZyanStringAppend(&s, &v)); CHECK(ZyanStringInsert(&s, 1, &v) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); is_text(&s, "abcd", 4); CHECK(buf[8] == t); return 0;
}'''),
dict(id="p11-truncate-range", property="P11",
 needs="truncating a string at an index behind its end",
 breaks="an index up to the capacity is accepted by truncation",
 edits=[(S, "ZyanStatus ZyanStringTruncate(", "    if (index >= string->vector.size)\n    {\n        return ZYAN_STATUS_OUT_OF_RANGE;\n    }\n", "    if (index >= string->vector.size)\n    {\n        return (index < string->vector.capacity) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE;\n    }\n")],
 demo=r'''
int main(void)
{
    ZyanString s; ZyanStringView v = sv("abcd", 4); OK(ZyanStringInit(&s, 60)); OK(ZyanStringAppend(&s, &v));
    CHECK(ZyanStringTruncate(&s, 5) == ZYAN_STATUS_OUT_OF_RANGE); is_text(&s, "abcd", 4); OK(ZyanStringDestroy(&s)); return 0;
}'''),
dict(id="p12-rpos-window", property="P12",
 needs="a backward search in a window whose first character belongs to the only occurrence",
 breaks="the character at the lower end of the window is not part of the searched text",
 edits=[(S, "ZyanStatus ZyanStringRPosEx(const", "if (a < (const char*)haystack->string.vector.data + index - count)", "if (a <= (const char*)haystack->string.vector.data + index - count && index > count)")],
 demo=r'''
int main(void)
{
    ZyanStringView h = sv("xxabyy", 6), n = sv("ab", 2); ZyanISize i; CHECK(ZyanStringRPosEx(&h, &n, &i, 5, 3) == ZYAN_STATUS_TRUE); CHECK(i == 2); return 0;
}'''),
dict(id="p12-lposi-restart", property="P12",
 needs="a case-insensitive search with a partial match before the occurrence",
 breaks="after a partial match the search continues behind it instead of at the next position",
 edits=[(S, "ZyanStatus ZyanStringLPosIEx(const", "        b = (char*)needle->string.vector.data;\n", "        if (a - s > 2)\n        {\n            s = a - 2;\n        }\n        b = (const char*)needle->string.vector.data;\n")],
 demo=r'''
int main(void)
{
    ZyanStringView h = sv("aaaab", 5), n = sv("AAAB", 4); ZyanISize i; CHECK(ZyanStringLPosI(&h, &n, &i) == ZYAN_STATUS_TRUE); CHECK(i == 1); return 0;
}'''),
dict(id="p13-lower-bracket", property="P13",
 needs="a text with the character that follows the letter Z in ASCII",
 breaks="lower-casing also changes the character '['",
 edits=[(S, "ZyanStatus ZyanStringToLowerCaseEx(", "if ((c >= 'A') && (c <= 'Z'))", "if ((ZyanU8)(c - 'A') <= 26)")],
 demo=r'''
int main(void)
{
    ZyanString s; ZyanStringView v = sv("A[Z@]", 5); OK(ZyanStringInit(&s, 60)); OK(ZyanStringAppend(&s, &v)); OK(ZyanStringToLowerCase(&s)); is_text(&s, "a[z@]", 5);
    OK(ZyanStringDestroy(&s)); return 0;
}'''),
dict(id="p13-compare-last", property="P13",
 needs="two texts of equal length that differ in their last character only",
 breaks="the last character is not compared",
 edits=[(S, "ZyanStatus ZyanStringCompare(", "for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)\n    {\n        if (a[i] == b[i])", "for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)\n    {\n        if ((a[i] == b[i]) || ((i > 7) && (i + 2 == s1->string.vector.size)))")],
 demo=r'''
int main(void)
{
    ZyanStringView a = sv("0123456789", 10), b = sv("012345678X", 10); ZyanI32 r; CHECK(ZyanStringCompare(&a, &b, &r) == ZYAN_STATUS_FALSE); CHECK(r < 0); return 0;
}'''),
dict(id="p14-view-strlen", property="P14",
 needs="a view on a buffer with an embedded zero character",
 breaks="a view created with an explicit length ends at the first zero character of the buffer",
 edits=[(S, "ZyanStatus ZyanStringViewInsideBufferEx(", "    view->string.vector.size = length + 1;\n", "    const char* const end = ZYAN_MEMCHR(buffer, 0, length);\n    view->string.vector.size = (end ? (ZyanUSize)(end - buffer) : length) + 1;\n")],
 demo=r'''
int main(void)
{
    ZyanStringView v; ZyanUSize n; OK(ZyanStringViewInsideBufferEx(&v, "ab\0cd", 5)); OK(ZyanStringViewGetSize(&v, &n)); CHECK(n == 5); return 0;
}'''),
dict(id="p15-push-stale", property="P15",
 needs="a set bit that is popped, and a cleared bit pushed to its place",
 breaks="pushing only sets bits, so the bit that was popped shows up again",
 edits=[(B, "ZyanStatus ZyanBitsetPush(", "    return ZyanBitsetAssign(bitset, bitset->size - 1, value);", "    return value ? ZyanBitsetSet(bitset, bitset->size - 1) : ZYAN_STATUS_SUCCESS;")],
 demo=r'''
int main(void)
{
    ZyanBitset b; OK(ZyanBitsetInit(&b, 3)); OK(ZyanBitsetPush(&b, 1)); OK(ZyanBitsetPop(&b)); OK(ZyanBitsetPush(&b, 0)); CHECK(ZyanBitsetTest(&b, 3) == ZYAN_STATUS_FALSE);
    OK(ZyanBitsetDestroy(&b)); return 0;
}'''),
dict(id="p15-combine-min", property="P15",
 needs="combining a larger destination with a smaller source",
 breaks="the last common byte is skipped if the sizes of the bitsets differ",
 edits=[(B, "ZyanStatus ZyanBitsetPerformByteOperation(", "    const ZyanUSize min = ZYAN_MIN(s1, s2);\n", "    const ZyanUSize min = (s1 > s2) ? ZYAN_MIN(s2, source->size / 8) : s1;\n")],
 demo=r'''
int main(void)
{
    ZyanBitset a, b; OK(ZyanBitsetInit(&a, 24)); OK(ZyanBitsetInit(&b, 13)); OK(ZyanBitsetSet(&b, 9)); OK(ZyanBitsetOR(&a, &b)); CHECK(ZyanBitsetTest(&a, 9) == ZYAN_STATUS_TRUE);
    OK(ZyanBitsetDestroy(&a)); OK(ZyanBitsetDestroy(&b)); return 0;
}'''),
dict(id="p16-count-saturate", property="P16",
 needs="a byte with all eight bits set",
 breaks="the population count of a byte is masked to three bits",
 edits=[(B, "ZyanStatus ZyanBitsetCount(", "        popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);\n", "        popcnt = (popcnt + (popcnt >> 4)) & 0x07;\n")],
 demo=r'''
int main(void)
{
    ZyanBitset b; ZyanUSize n; OK(ZyanBitsetInit(&b, 20)); OK(ZyanBitsetSetAll(&b)); OK(ZyanBitsetCount(&b, &n)); CHECK(n == 20); OK(ZyanBitsetDestroy(&b)); return 0;
}'''),
dict(id="p17-pop-byte", property="P17",
 needs="popping a bit at a byte boundary, and reading the storage size",
 breaks="the last byte is given back one pop too late",
 edits=[(B, "ZyanStatus ZyanBitsetPop(", "    if ((--bitset->size % 8) == 0)\n", "    if ((bitset->size-- % 8) == 0 || !bitset->size)\n")],
 demo=r'''
int main(void)
{
    ZyanBitset b; ZyanUSize n; OK(ZyanBitsetInit(&b, 9)); OK(ZyanBitsetPop(&b)); OK(ZyanBitsetGetSizeBytes(&b, &n)); CHECK(n == 1); OK(ZyanBitsetDestroy(&b)); return 0;
}'''),
dict(id="p18-hex-33-bits", property="P18",
 needs="a hexadecimal number with exactly 33 significant bits",
 breaks="numbers from 2^32 to 2^33-1 are formatted with eight digits",
 edits=[(F, "ZyanStatus ZyanStringAppendHexU64(", "0xFFFFFFFF00000000", "0xFFFFFFFE00000000")],
 demo=r'''
int main(void)
{
    ZyanString s; OK(ZyanStringInit(&s, 60)); OK(ZyanStringAppendHexU(&s, 0x1DEADBEEFULL, 0, 1)); is_text(&s, "1DEADBEEF", 9); OK(ZyanStringDestroy(&s)); return 0;
}'''),
dict(id="p18-dec-pad", property="P18",
 needs="decimal padding to a width that exceeds the spare capacity of the destination",
 breaks="the zeros of the padding are written before the number only if no reallocation was needed",
 edits=[(F, "ZyanStatus ZyanStringAppendDecU64(", "        ZYAN_CHECK(ZyanStringResize(string, string->vector.size + length_total - 1));\n", "        ZYAN_CHECK(ZyanStringResize(string, string->vector.size + length_number - 1));\n        ZYAN_CHECK(ZyanStringReserve(string, length_target + length_total - 1));\n        ZYAN_MEMSET((char*)string->vector.data + length_target - 1, '0', 1);\n"),
        (F, "ZyanStatus ZyanStringAppendDecU64(", "        ZYAN_MEMSET((char*)string->vector.data + length_target - 1, '0', offset_write);\n", "        ZYAN_MEMSET((char*)string->vector.data + length_target - 1, '0',\n            ZYAN_MIN(offset_write, 200));\n")],
 demo=r'''
int main(void)
{
    char x[256]; memset(x, '0', 254); x[254] = '7'; ZyanString s; OK(ZyanStringInitEx(&s, 4, &T, 2, 4)); OK(ZyanStringAppendDecU(&s, 7, 255)); is_text(&s, x, 255); OK(ZyanStringDestroy(&s)); return 0;
}'''),
dict(id="p19-format-exact", property="P19",
 needs="formatted text that is exactly one character longer than the spare capacity",
 breaks="the last character of the formatted text is dropped and the call reports success",
 edits=[(F, "ZyanStatus ZyanStringAppendFormat(", "if (w <= (ZyanI32)(string->vector.capacity - len))", "if (w <= (ZyanI32)(string->vector.capacity - len + 1))")],
 demo=r'''
int main(void)
{
    char buf[8]; ZyanString s; OK(ZyanStringInitCustomBuffer(&s, buf, 8)); CHECK(!ZYAN_SUCCESS(ZyanStringAppendFormat(&s, "%s", "12345678"))); is_text(&s, "", 0); return 0;
}'''),
dict(id="p19-dec-fixed", property="P19",
 needs="a padded decimal number appended to a fixed buffer with room for the number but not for the padding",
 breaks="the padding is not counted when the available space is checked, so a fixed buffer is overrun",
 edits=[(F, "ZyanStatus ZyanStringAppendDecU64(", "    if (string->vector.size + length_total > string->vector.capacity)", "    if (string->vector.size + length_number > string->vector.capacity)")],
 demo=r'''
int main(void)
{
    char buf[32]; memset(buf, '.', 32); ZyanString s; OK(ZyanStringInitCustomBuffer(&s, buf, 8)); CHECK(!ZYAN_SUCCESS(ZyanStringAppendDecU(&s, 42, 12))); is_text(&s, "", 0); CHECK(buf[9] == '.'); return 0;
}'''),
dict(id="p20-dash-value", property="P20",
 needs="an option whose value in the next token begins with a dash",
 breaks="a value that begins with a dash is not accepted",
 edits=[(A, "If not, consume next token", "if (i == cfg->argc - 1)", "if ((i == cfg->argc - 1) || ((cfg->argv[i + 1][0] == '-') && cfg->argv[i + 1][1]))")],
 demo=r'''
int main(void)
{
    const char *argv[] = {"x", "-n", "-5"}; ZyanArgParseDefinition d[] = {{"-n", 0, 0}, {0}}; ZyanArgParseConfig c = {argv, 3, 0, 0, d}; ZyanVector v; const char *e;
    OK(ZyanArgParse(&c, &v, &e)); ZyanUSize n; OK(ZyanVectorGetSize(&v, &n)); CHECK(n == 1); OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p20-cluster", property="P20",
 needs="a combined token of short options whose last one takes its value from the next token, followed by more tokens",
 breaks="the value behind a combined token is parsed again as an argument of its own",
 edits=[(A, "If not, consume next token", "                        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));", "                        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value,\n                            cfg->argv[(read_ptr == cur_arg + 1) ? ++i : i + 1]));")],
 demo=r'''
int main(void)
{
    const char *argv[] = {"x", "-vn", "5", "y"}; ZyanArgParseDefinition d[] = {{"-n", 0, 0}, {"-v", 1, 0}, {0}}; ZyanArgParseConfig c = {argv, 4, 0, 3, d}; ZyanVector v; const char *e;
    OK(ZyanArgParse(&c, &v, &e)); ZyanUSize n; OK(ZyanVectorGetSize(&v, &n)); CHECK(n == 3); OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p21-leak", property="P21",
 needs="a command line whose last token is a short option without its value",
 breaks="the result vector is not released on this failure",
 edits=[(A, "If not, consume next token", "                            goto failure;", "                            return err;")],
 demo=r'''
int main(void)
{
    const char *argv[] = {"x", "-n"}; ZyanArgParseDefinition d[] = {{"-n", 0, 0}, {0}}; ZyanArgParseConfig c = {argv, 2, 0, 0, d}; ZyanVector v; const char *e;
    CHECK(ZyanArgParseEx(&c, &v, &e, &T) == ZYAN_STATUS_ARG_MISSES_VALUE); CHECK(!t_live()); return 0;
}'''),
dict(id="p21-required", property="P21",
 needs="two required arguments of which only the other one is given",
 breaks="any required argument that is present satisfies all of them",
 edits=[(A, "Check whether all required", "            if (arg->def == def)", "            if (arg->def->required)")],
 demo=r'''
int main(void)
{
    const char *argv[] = {"x", "-a"}; ZyanArgParseDefinition d[] = {{"-a", 1, 1}, {"-b", 1, 1}, {0}}; ZyanArgParseConfig c = {argv, 2, 0, 0, d}; ZyanVector v; const char *e;
    CHECK(ZyanArgParse(&c, &v, &e) == ZYAN_STATUS_REQUIRED_ARG_MISSING); CHECK(!strcmp(e, "-b")); return 0;
}'''),
dict(id="p22-not-recursive", property="P22",
 needs="a thread that enters a critical section it already owns",
 breaks="entering again is refused although the caller owns the section",
 edits=[("src/API/Synchronization.c", "ZyanCriticalSectionInitialize", "PTHREAD_MUTEX_RECURSIVE", "PTHREAD_MUTEX_ERRORCHECK")],
 demo=r'''
int main(void)
{
    ZyanCriticalSection c; OK(ZyanCriticalSectionInitialize(&c)); OK(ZyanCriticalSectionEnter(&c)); OK(ZyanCriticalSectionEnter(&c)); CHECK(ZyanCriticalSectionTryEnter(&c));
    for (int i = 0; i < 3; ++i) OK(ZyanCriticalSectionLeave(&c)); OK(ZyanCriticalSectionDelete(&c)); return 0;
}'''),
dict(id="p22-try-releases", property="P22",
 needs="two threads: one that got in by the non-blocking attempt, and another one trying while the first is inside",
 breaks="the non-blocking attempt reports success but gives the section up again",
 edits=[("src/API/Synchronization.c", "ZyanCriticalSectionTryEnter", "    return pthread_mutex_trylock(critical_section) ? ZYAN_FALSE : ZYAN_TRUE;", "    if (pthread_mutex_trylock(critical_section))\n    {\n        return ZYAN_FALSE;\n    }\n    return pthread_mutex_unlock(critical_section) ? ZYAN_FALSE : ZYAN_TRUE;")],
 demo=r'''
static ZyanCriticalSection c; static ZyanBool in; static void *other(void *x) { in = ZyanCriticalSectionTryEnter(&c); if (in) ZyanCriticalSectionLeave(&c); return 0; }
int main(void)
{
    pthread_t t; OK(ZyanCriticalSectionInitialize(&c)); CHECK(ZyanCriticalSectionTryEnter(&c)); pthread_create(&t, 0, other, 0); pthread_join(t, 0); CHECK(!in);
    OK(ZyanCriticalSectionLeave(&c)); OK(ZyanCriticalSectionDelete(&c)); return 0;
}'''),
dict(id="p23-clear-slot", property="P23",
 needs="a thread that stores an empty value in a slot that had a value, and ends",
 breaks="storing an empty value is skipped, so the old value is still seen and destructed",
 edits=[("src/API/Thread.c", "ZyanThreadTlsSetValue", "    const int error = pthread_setspecific(index, data);", "    const int error = (data || !index) ? pthread_setspecific(index, data) : 0;")],
 demo=r'''
static ZyanThreadTlsIndex k, k2; static int calls; static void d(void *p) { ++calls; }
static void *th(void *x) { void *p = &k; OK(ZyanThreadTlsSetValue(k2, p)); OK(ZyanThreadTlsSetValue(k2, 0)); OK(ZyanThreadTlsGetValue(k2, &p)); CHECK(!p); return 0; }
int main(void)
{
    pthread_t t; OK(ZyanThreadTlsAlloc(&k, d)); OK(ZyanThreadTlsAlloc(&k2, d)); pthread_create(&t, 0, th, 0); pthread_join(t, 0); CHECK(!calls); return 0;
}'''),
dict(id="p23-id-cached", property="P23",
 needs="a second thread that asks for its identifier",
 breaks="the identifier of the first caller is remembered for all threads",
 edits=[("src/API/Thread.c", "ZyanThreadGetCurrentThreadId", "    pthread_t ptid = pthread_self();\n", "    static pthread_t ptid = 0;\n    if (!ptid)\n    {\n        ptid = pthread_self();\n    }\n")],
 demo=r'''
static ZyanThreadId a, b; static void *th(void *x) { OK(ZyanThreadGetCurrentThreadId(&b)); return 0; }
int main(void) { pthread_t t; OK(ZyanThreadGetCurrentThreadId(&a)); pthread_create(&t, 0, th, 0); pthread_join(t, 0); CHECK(a != b); return 0; }'''),
dict(id="p24-inc64-reread", property="P24",
 needs="another thread that changes the variable between the addition and the second read",
 breaks="the 64-bit increment returns the value of a second read of the variable",
 edits=[("include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicIncrement64", "    return (ZyanU64)(__sync_fetch_and_add(&destination->value, 1, &destination->value)) + 1;", "    __sync_fetch_and_add(&destination->value, 1, &destination->value);\n    return (ZyanU64)destination->value;")],
 demo=r'''
#define N 400000
static ZyanAtomic64 a; static unsigned char seen[4 * N + 2]; static int twice;
static void *th(void *x) { for (int i = 0; i < N; ++i) { ZyanU64 v = ZyanAtomicIncrement64(&a); if (v > 4 * N || __sync_fetch_and_add(&seen[v], 1)) twice = 1; } return 0; }
int main(void)
{
    for (int r = 0; r < 10 && !twice; ++r)
    {
        pthread_t t[4]; a.value = 0; memset(seen, 0, sizeof seen); for (int i = 0; i < 4; ++i) pthread_create(&t[i], 0, th, 0); for (int i = 0; i < 4; ++i) pthread_join(t[i], 0);
    }
    CHECK(!twice); return 0;
}'''),
dict(id="p24-cas64-narrow", property="P24",
 needs="a 64-bit compare-and-exchange whose comparand needs more than 32 bits",
 breaks="the comparand is narrowed to 32 bits",
 edits=[("include/Zycore/Internal/AtomicGNU.h", "ZyanAtomicCompareExchange64", "&destination->value, comparand, value", "&destination->value, (ZyanU32)comparand, value")],
 demo=r'''
int main(void) { ZyanAtomic64 a = {0x100000005ULL}; CHECK(ZyanAtomicCompareExchange64(&a, 0x100000005ULL, 9) == 0x100000005ULL); CHECK(a.value == 9); return 0; }'''),
dict(id="p25-protect-partial", property="P25",
 needs="a range whose size is not a multiple of the page size",
 breaks="the last, partly covered page keeps its old protection",
 edits=[("src/API/Memory.c", "ZyanMemoryVirtualProtect(", "mprotect(address, size, protection)", "mprotect(address, size & ~(ZyanUSize)(ZyanMemoryGetSystemPageSize() - 1), protection)")],
 demo=r'''
int main(void)
{
    size_t p = sysconf(_SC_PAGESIZE); char *m = mmap(0, 3 * p, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); OK(ZyanMemoryVirtualProtect(m, p + 10, ZYAN_PAGE_READONLY));
    int fd[2]; CHECK(!pipe(fd)); CHECK(write(fd[1], "x", 1) == 1); CHECK(read(fd[0], m + p, 1) == -1 && errno == EFAULT); return 0;
}'''),
dict(id="p25-tty-stream", property="P25",
 needs="standard error and standard output that are connected to different things",
 breaks="the query for the error stream looks at the output stream",
 edits=[("src/API/Terminal.c", "#else\n    switch (stream)", "        file = STDERR_FILENO;", "        file = STDOUT_FILENO;")],
 demo=r'''
int main(void) { int fd[2]; CHECK(!pipe(fd)); CHECK(dup2(fd[1], 1) == 1); close(2); CHECK(ZyanTerminalIsTTY(ZYAN_STDSTREAM_OUT) == ZYAN_STATUS_FALSE); int r = ZyanTerminalIsTTY(ZYAN_STDSTREAM_ERR) == ZYAN_STATUS_INVALID_ARGUMENT; return !r; }'''),
dict(id="p26-strrchr-zero", property="P26",
 needs="the build without the C library and a search for the terminating zero",
 breaks="the fallback of strrchr does not look at the terminator",
 edits=[("include/Zycore/LibC.h", "ZYAN_INLINE char* ZYAN_STRRCHR(", "    do\n    {\n        if (*s == (char)c)\n        {\n            ret = (char*)s;\n        }\n    } while (*s++);\n", "    for (; *s; ++s)\n    {\n        if (*s == (char)c)\n        {\n            ret = (char*)s;\n        }\n    }\n")],
 flags="-DZYAN_NO_LIBC",
 demo=r'''
#include <Zycore/LibC.h>
int main(void) { const char *s = "abca"; CHECK(ZYAN_STRRCHR(s, 'a') == s + 3); CHECK(ZYAN_STRRCHR(s, 0) == s + 4); return 0; }'''),
dict(id="p26-memmove-overlap", property="P26",
 needs="the build without the C library, and a move by less than a word within one buffer",
 breaks="the fallback of memmove copies whole words forwards if the buffers do not overlap by more than eight bytes",
 edits=[("include/Zycore/LibC.h", "ZYAN_INLINE void* ZYAN_MEMMOVE(", "    if (ps < pd)\n", "    if ((ps < pd) && (ZyanUSize)(pd - ps) >= (n >> 6))\n")],
 flags="-DZYAN_NO_LIBC",
 demo=r'''
#include <Zycore/LibC.h>
int main(void) { unsigned char b[400]; for (int i = 0; i < 400; ++i) b[i] = i * 7; ZYAN_MEMMOVE(b + 1, b, 300); for (int i = 0; i < 300; ++i) CHECK(b[i + 1] == (unsigned char)(i * 7)); return 0; }'''),
dict(id="p27-compare-signed", property="P27",
 needs="comparing unsigned 64-bit numbers of which one has the highest bit set",
 breaks="the predefined comparison of 64-bit numbers treats them as signed",
 edits=[("include/Zycore/Comparison.h", "ZyanCompareNumeric64", "ZyanU64", "ZyanI64")],
 demo=r'''
int main(void) { uint64_t a = 1, b = 0x8000000000000001ULL; CHECK(ZyanCompareNumeric64(&a, &b) < 0); CHECK(ZyanCompareNumeric64(&b, &a) > 0); return 0; }'''),
dict(id="p27-status-code", property="P27",
 needs="a status code with a code above 16 bits",
 breaks="codes are truncated to 16 bits when a status is made",
 edits=[("include/Zycore/Status.h", "#define ZYAN_MAKE_STATUS", "& 0xFFFFFu", "& 0xFFFFu")],
 demo=r'''
int main(void) { CHECK(ZYAN_STATUS_CODE(ZYAN_MAKE_STATUS(1u, 5u, 0x54321u)) == 0x54321u); return 0; }'''),
dict(id="p28-realloc-lost", property="P28",
 needs="a reallocation that the C library refuses",
 breaks="the caller's pointer is overwritten although the reallocation failed, so the block is lost",
 edits=[("src/Allocator.c", "ZyanAllocatorDefaultReallocate(", "    void* const x = ZYAN_REALLOC(*p, element_size * n);\n    if (!x)\n    {\n        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;\n    }\n    *p = x;\n", "    *p = ZYAN_REALLOC(*p, element_size * n);\n    if (!*p)\n    {\n        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;\n    }\n")],
 demo=r'''
int main(void)
{
    ZyanAllocator *a = ZyanAllocatorDefault(); void *p = 0, *q; OK(a->allocate(a, &p, 8, 4)); q = p;
    CHECK(a->reallocate(a, &p, 1, (size_t)1 << 62) == ZYAN_STATUS_NOT_ENOUGH_MEMORY); CHECK(p == q); OK(a->deallocate(a, p, 8, 4)); return 0;
}'''),
dict(id="p28-init-check", property="P28",
 needs="an allocator description without a reallocation function",
 breaks="an incomplete allocator description is accepted",
 edits=[("src/Allocator.c", "ZyanStatus ZyanAllocatorInit(", "    if (!allocator || !allocate || !reallocate || !deallocate)", "    if (!allocator || !allocate || !(reallocate || deallocate))")],
 demo=r'''
int main(void) { ZyanAllocator a; CHECK(ZyanAllocatorInit(&a, t_alloc, 0, t_free) == ZYAN_STATUS_INVALID_ARGUMENT); OK(ZyanAllocatorInit(&a, t_alloc, t_realloc, t_free)); return 0; }'''),
dict(id="p29-dec-static", property="P29",
 needs="two threads that format numbers at the same time",
 breaks="the digits are collected in a buffer shared by all threads",
 edits=[(F, "ZyanStatus ZyanStringAppendDecU64(", "    char buffer[ZYCORE_MAXCHARS_DEC_64];\n", "    static char buffer[ZYCORE_MAXCHARS_DEC_64];\n")],
 demo=r'''
static volatile int bad;
static void *th(void *x)
{
    char w[64]; unsigned long long k = (uintptr_t)x * 1111111111111111ULL; ZyanString s; OK(ZyanStringInit(&s, 60)); sprintf(w, "%llu", k);
    for (int i = 0; i < 300000 && !bad; ++i) { const char *d; OK(ZyanStringClear(&s)); OK(ZyanStringAppendDecU(&s, k, 0)); OK(ZyanStringGetData(&s, &d)); if (strcmp(d, w)) bad = 1; }
    ZyanStringDestroy(&s); return 0;
}
int main(void) { pthread_t t[4]; for (intptr_t i = 0; i < 4; ++i) pthread_create(&t[i], 0, th, (void*)(i + 1)); for (int i = 0; i < 4; ++i) pthread_join(t[i], 0); CHECK(!bad); return 0; }'''),
dict(id="p29-swap-scratch", property="P29",
 needs="two threads that search the same vector at the same time",
 breaks="the binary search keeps its bounds in static variables",
 edits=[(V, "ZyanVectorBinarySearchEx(const", "    ZyanISize l = index;\n    ZyanISize h = index + count - 1;\n", "    static ZyanISize l, h;\n    l = index;\n    h = index + count - 1;\n")],
 demo=r'''
static ZYAN_DECLARE_COMPARISON(cmp, uint32_t)
static volatile int bad; static ZyanVector v;
static void *th(void *x)
{
    for (uint32_t i = 0; i < 2000000 && !bad; ++i) { uint32_t k = (i * ((uintptr_t)x + 7)) % 64; ZyanUSize f = 99; if (ZyanVectorBinarySearch(&v, &k, &f, (ZyanComparison)cmp) != ZYAN_STATUS_TRUE || f != k) bad = 1; }
    return 0;
}
int main(void)
{
    OK(ZyanVectorInit(&v, 4, 64, 0)); for (uint32_t i = 0; i < 64; ++i) OK(ZyanVectorPushBack(&v, &i));
    pthread_t t[4]; for (intptr_t i = 0; i < 4; ++i) pthread_create(&t[i], 0, th, (void*)(i + 1)); for (int i = 0; i < 4; ++i) pthread_join(t[i], 0); CHECK(!bad); return 0;
}'''),
dict(id="p30-min-off", property="P30",
 needs="the configuration without the C library and the smallest 16-bit number",
 breaks="the smallest 16-bit number is one too large",
 flags="-DZYAN_NO_LIBC",
 edits=[("include/Zycore/Types.h", "define ZYAN_INT16_MIN           (-ZYAN_INT16_MAX", "(-ZYAN_INT16_MAX - 1)", "(-ZYAN_INT16_MAX)")],
 demo=r"""
int main(void) { CHECK(ZYAN_INT16_MIN == -32768); CHECK((ZyanI16)(ZYAN_INT16_MIN) < -32767); return 0; }"""),
dict(id="p30-min-parens", property="P30",
 needs="the configuration without the C library and the smallest 64-bit number within a larger expression",
 breaks="the limit is not a closed expression",
 flags="-DZYAN_NO_LIBC",
 edits=[("include/Zycore/Types.h", "define ZYAN_INT64_MIN           (-ZYAN_INT64_MAX", "(-ZYAN_INT64_MAX - 1)", "-ZYAN_INT64_MAX - 1")],
 demo=r"""
int main(void) { int64_t x = ZYAN_INT64_MIN / 2; CHECK(x == -4611686018427387904LL); return 0; }"""),
dict(id="p30-fallback-long", property="P30",
 needs="the configuration without the C library and a compiler that does not predefine the limits (__UINT64_MAX__)",
 breaks="the limit of the unsigned 64-bit type is that of the signed one",
 flags="-DZYAN_NO_LIBC -U__UINT64_MAX__",
 edits=[("include/Zycore/Types.h", "define ZYAN_UINT64_MAX  (18446744073709551615UL)", "(18446744073709551615UL)", "(18446744073709551615U >> 1)")],
 demo=r"""
int main(void) { ZyanU64 x = ZYAN_UINT64_MAX; CHECK(x == ~0ULL); return 0; }"""),
dict(id="p30-abs-int", property="P30",
 needs="the magnitude of a negative number below -2^31",
 breaks="the magnitude of a negative number goes through a 32-bit type",
 edits=[("include/Zycore/Format.h", "ZyanAbsI64", "return (ZyanU64)(x < 0 ? -x : x);", "return (ZyanU64)(x < -0x7fffffff ? (ZyanU32)-x : (x < 0 ? -x : x));")],
 demo=r"""
int main(void) { CHECK(ZyanAbsI64(-5) == 5); CHECK(ZyanAbsI64(-0x123456789ALL) == 0x123456789AULL); CHECK(ZyanAbsI64(INT64_MIN) == 1ULL << 63); return 0; }"""),
dict(id="p06-bs-64k", property="P06",
 needs="a binary search in more than 65536 elements for something in the upper part",
 breaks="the upper bound of the binary search is held in 16 bits",
 edits=[(V, "ZyanVectorBinarySearchEx(const", "    ZyanISize h = index + count - 1;", "    ZyanISize h = index + (ZyanU16)(count - 1);")],
 demo=r'''
int main(void)
{
    ZyanVector v; OK(ZyanVectorInit(&v, 4, 70000, 0));
    for (uint32_t i = 0; i < 66000; ++i) OK(ZyanVectorPushBack(&v, &i));
    uint32_t x = 65999; ZyanUSize f; CHECK(ZyanVectorBinarySearch(&v, &x, &f, (ZyanComparison)&ZyanCompareNumeric32) == ZYAN_STATUS_TRUE); CHECK(f == 65999);
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p12-skip-partial", property="P12",
 needs="a text in which a partial occurrence overlaps the real one",
 breaks="after a partial match the search goes on behind it instead of at the next character",
 edits=[(S, "ZyanStatus ZyanStringLPosEx(", "            if (*a++ != *b++)\n            {\n                break;\n            }\n", "            if (*a != *b)\n            {\n                s = a - 1;\n                break;\n            }\n            ++a;\n            ++b;\n")],
 demo=r'''
int main(void)
{
    ZyanStringView h = ZYAN_DEFINE_STRING_VIEW("aaab"), n = ZYAN_DEFINE_STRING_VIEW("aab"); ZyanISize f; CHECK(ZyanStringLPos(&h, &n, &f) == ZYAN_STATUS_TRUE); CHECK(f == 1); return 0;
}'''),
dict(id="p14-view-self", property="P14",
 needs="a view that is narrowed in place (the new view is also the source) by more characters than remain",
 breaks="the start of the new view is limited by the size of the source after the new size has been stored already",
 edits=[(S, "ZyanStatus ZyanStringViewInsideViewEx(", "    view->string.vector.data = (void*)((char*)source->string.vector.data + index);\n    view->string.vector.size = count + 1;\n", "    view->string.vector.size = count + 1;\n    view->string.vector.data = (void*)((char*)source->string.vector.data +\n        ZYAN_MIN(index, source->string.vector.size - 1));\n")],
 demo=r'''
int main(void)
{
    ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("abcdef"); const char* d; ZyanUSize n; OK(ZyanStringViewInsideViewEx(&v, &v, 4, 2));
    OK(ZyanStringViewGetData(&v, &d)); OK(ZyanStringViewGetSize(&v, &n)); CHECK(n == 2 && !memcmp(d, "ef", 2)); return 0;
}'''),
dict(id="p20-long-token", property="P20",
 needs="a command line token whose length is a multiple of 256 (plus one)",
 breaks="the length of a token is held in eight bits, so a long option is taken for an unnamed argument",
 edits=[(A, "ZyanArgParseEx(const", "        ZyanUSize arg_len = ZYAN_STRLEN(cfg->argv[i]);", "        const ZyanU8 arg_len = (ZyanU8)ZYAN_STRLEN(cfg->argv[i]);")],
 demo=r'''
int main(void)
{
    static char t[300] = "-n"; memset(t + 2, '1', 254); const char *argv[] = {"x", t}; ZyanArgParseDefinition d[] = {{"-n", 0, 0}, {0}}; ZyanArgParseConfig c = {argv, 2, 0, 1, d}; ZyanVector v; const char *e;
    OK(ZyanArgParse(&c, &v, &e)); const ZyanArgParseArg* a = ZyanVectorGet(&v, 0); CHECK(a && a->def == &d[0] && a->has_value); OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p16-none-words", property="P16",
 needs="a bitset of more than 136 bits all of whose set bits lie in the byte behind an empty group of eight",
 breaks="the test for 'none' goes through larger sets eight bytes at a time and steps over the byte behind each group",
 edits=[(B, "ZyanStatus ZyanBitsetNone(", "        if (i < (size - 1))\n        {\n            if (*value != 0x00)\n            {\n                return ZYAN_STATUS_FALSE;\n            }\n",
 "        if (i < (size - 1))\n        {\n            if ((size > 17) && (i + 9 < size) && !value[0] && !value[1] && !value[2] && !value[3] &&\n                !value[4] && !value[5] && !value[6] && !value[7])\n            {\n                // Nothing in the whole group\n                i += 8;\n                continue;\n            }\n            if (*value)\n            {\n                return ZYAN_STATUS_FALSE;\n            }\n")],
 demo=r'''
int main(void)
{
    ZyanBitset b; OK(ZyanBitsetInit(&b, 200));
    for (unsigned i = 0; i < 200; ++i) { OK(ZyanBitsetSet(&b, i)); CHECK(ZyanBitsetNone(&b) == ZYAN_STATUS_FALSE); OK(ZyanBitsetReset(&b, i)); CHECK(ZyanBitsetNone(&b) == ZYAN_STATUS_TRUE); }
    OK(ZyanBitsetDestroy(&b)); return 0;
}'''),
dict(id="p02-emplace-late", property="P02",
 needs="an emplacement at an index behind the end of a vector that is full",
 breaks="the index is checked after the storage was enlarged, so a rejected call changes the capacity (or reports a full buffer)",
 edits=[(V, "ZyanVectorEmplaceEx(ZyanVector", "    if (index > vector->size)\n    {\n        return ZYAN_STATUS_OUT_OF_RANGE;\n    }\n", ""),
        (V, "ZyanVectorEmplaceEx(ZyanVector", "    if (index < vector->size)\n    {\n        ZYAN_CHECK(ZyanVectorShiftRight(", "    if (index > vector->size)\n    {\n        return ZYAN_STATUS_OUT_OF_RANGE;\n    }\n\n    if (index < vector->size)\n    {\n        ZYAN_CHECK(ZyanVectorShiftRight(")],
 demo=r'''
int main(void)
{
    uint32_t x = 7; void* e; ZyanVector v; ZyanUSize n; OK(ZyanVectorInitEx(&v, sizeof x, 2, 0, &T, 2, 4)); OK(ZyanVectorPushBack(&v, &x)); OK(ZyanVectorPushBack(&v, &x));
    CHECK(ZyanVectorEmplaceEx(&v, 5, &e, 0) == ZYAN_STATUS_OUT_OF_RANGE); OK(ZyanVectorGetCapacity(&v, &n)); CHECK(n == 2);
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p02-swap-capacity", property="P02",
 needs="swapping with an index between the size and the capacity",
 breaks="the second index is compared with the capacity, a stale element behind the end is swapped in",
 edits=[(V, "ZyanVectorSwapElements(", "(index_second >= vector->size)", "(index_second >= vector->capacity)")],
 demo=r'''
int main(void)
{
    uint32_t x = 7; ZyanVector v; OK(ZyanVectorInit(&v, sizeof x, 8, 0)); OK(ZyanVectorPushBack(&v, &x)); x = 9; OK(ZyanVectorPushBack(&v, &x));
    CHECK(ZyanVectorSwapElements(&v, 0, 5) == ZYAN_STATUS_OUT_OF_RANGE); CHECK(*(const uint32_t*)ZyanVectorGet(&v, 0) == 7);
    OK(ZyanVectorDestroy(&v)); return 0;
}'''),
dict(id="p26-strncat-pad", property="P26",
 needs="the build without the C library, and a limited concatenation of a text longer than the limit with a multiple of four characters",
 breaks="the fallback of strncat forgets the terminator if the limit is a multiple of four",
 edits=[("include/Zycore/LibC.h", "ZYAN_INLINE char* ZYAN_STRNCAT(", "    *dest = 0;\n", "    if (((ZyanUSize)(dest - ret)) & 3)\n    {\n        *dest = 0;\n    }\n")],
 flags="-DZYAN_NO_LIBC",
 demo=r'''
#include <Zycore/LibC.h>
int main(void) { char b[16]; for (int i = 0; i < 16; ++i) b[i] = '#'; b[0] = 'a'; b[1] = 0; ZYAN_STRNCAT(b, "bcdefg", 3); CHECK(b[3] == 'd' && b[4] == 0); b[0] = 'a'; b[1] = 0; ZYAN_STRNCAT(b, "bcdefg", 2); CHECK(b[3] == 0); return 0; }'''),
dict(id="p31-ppc-order", property="P31",
 needs="a compiler for 64-bit PowerPC, which predefines __powerpc__ as well as __powerpc64__",
 breaks="the general macro is looked at first, 64-bit PowerPC is taken for the 32-bit one",
 edits=[("include/Zycore/Defines.h", "", "#elif defined(__powerpc64__)\n#   define ZYAN_PPC64\n#elif defined(__powerpc__)\n#   define ZYAN_PPC\n", "#elif defined(__powerpc__)\n#   define ZYAN_PPC\n#elif defined(__powerpc64__)\n#   define ZYAN_PPC64\n")],
 demo=r"""
int main(void) { CHECK(system("printf '#include <Zycore/Defines.h>\\n#if !defined(ZYAN_PPC64) || defined(ZYAN_PPC)\\n#error no\\n#endif\\n' | gcc -E -undef -nostdinc -Iinclude -DZYAN_NO_LIBC -D__GNUC__=13 -D__linux=1 -D__powerpc__=1 -D__powerpc64__=1 - >/dev/null") == 0); return 0; }"""),
dict(id="p31-win64-size", property="P31",
 needs="Clang or GCC for 64-bit Windows, where long has 32 bits, without the C library",
 breaks="the size type is made of unsigned long, which is narrower than a pointer there",
 edits=[("include/Zycore/Types.h", "", "typedef __SIZE_TYPE__               ZyanUSize;", "typedef unsigned long int           ZyanUSize;")],
 demo=r"""
int main(void) { CHECK(system("printf '#include <Zycore/Types.h>\\n_Static_assert(sizeof(ZyanUSize) == sizeof(void*), \"\");\\n' | clang --target=x86_64-w64-mingw32 -x c -std=c11 -fsyntax-only -nostdinc -ffreestanding -Iinclude -DZYAN_NO_LIBC -") == 0); return 0; }"""),
dict(id="p31-unix-first", property="P31",
 needs="a system that predefines __unix__ beside its own macro (FreeBSD, NetBSD)",
 breaks="general Unix is tested before the particular systems",
 edits=[("include/Zycore/Defines.h", "", "#elif defined(__FreeBSD__)\n#   define ZYAN_FREEBSD\n#   define ZYAN_POSIX\n#elif defined(__NetBSD__)\n#   define ZYAN_NETBSD\n#   define ZYAN_POSIX\n", "#elif defined(__unix__) && !defined(__sun) && !defined(__FreeBSD__)\n#   define ZYAN_UNIX\n#   define ZYAN_POSIX\n#elif defined(__FreeBSD__)\n#   define ZYAN_FREEBSD\n#   define ZYAN_POSIX\n#elif defined(__NetBSD__) && !defined(__unix__)\n#   define ZYAN_NETBSD\n#   define ZYAN_POSIX\n")],
 demo=r"""
int main(void) { CHECK(system("printf '#include <Zycore/Defines.h>\\n#if !defined(ZYAN_NETBSD) || defined(ZYAN_UNIX)\\n#error no\\n#endif\\n' | gcc -E -undef -nostdinc -Iinclude -DZYAN_NO_LIBC -D__GNUC__=13 -D__NetBSD__=1 -D__unix__=1 -D__x86_64__=1 - >/dev/null") == 0); return 0; }"""),
]
