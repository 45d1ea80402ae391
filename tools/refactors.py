#!/usr/bin/env python3
"""Edits that keep the behaviour: tools/refactors.py [-jN] [--tests] [PATTERN...] applies each set of edits to a copy and runs the properties' checks, which have to stay quiet.
An edit is (file, "fn:NAME", new definition) for a whole function, or (file, context, old, new) as in mutants.py, or (file, "all", old, new) for every occurrence."""
import os, re, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedtest_lib as T
SNAP = "/tmp/refact-snap"
V, L, S, B, F, A, AL = "src/Vector.c", "src/List.c", "src/String.c", "src/Bitset.c", "src/Format.c", "src/ArgParse.c", "src/Allocator.c"
API = "src/API/"; I = "include/Zycore/"
VEC = "P01 P02 P03 P04 P05 P06 P10 P11 P15 P17 P19 P20 P21 P26 P29".split()
LST = "P07 P08 P09 P26 P29".split()
STR = "P10 P11 P12 P13 P14 P18 P19 P26 P29".split()
FMT = "P18 P19 P26 P29".split()
R = {
"vector-loops": (VEC, [
 (V, "fn:ZyanVectorShiftLeft", """static ZyanStatus ZyanVectorShiftLeft(ZyanVector* vector, ZyanUSize index, ZyanUSize count)
{
    ZyanU8* p = (ZyanU8*)vector->data + index * vector->element_size;
    const ZyanU8* const end = (const ZyanU8*)vector->data + vector->size * vector->element_size;
    const ZyanU8* q = p + count * vector->element_size;
    while (q < end)
    {
        *p++ = *q++;
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorShiftRight", """static ZyanStatus ZyanVectorShiftRight(ZyanVector* vector, ZyanUSize index, ZyanUSize count)
{
    for (ZyanUSize i = vector->size; i > index; --i)
    {
        ZYAN_MEMMOVE(ZYCORE_VECTOR_OFFSET(vector, i - 1 + count), ZYCORE_VECTOR_OFFSET(vector, i - 1), vector->element_size);
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorPushBack", """ZyanStatus ZyanVectorPushBack(ZyanVector* vector, const void* element)
{
    if (vector == ZYAN_NULL)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    return ZyanVectorInsertRange(vector, vector->size, element, 1);
}"""),
 (V, "fn:ZyanVectorPopBack", """ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (!vector->size)
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    return ZyanVectorDeleteRange(vector, vector->size - 1, 1);
}"""),
 (V, "fn:ZyanVectorEmplace", """ZyanStatus ZyanVectorEmplace(ZyanVector* vector, void** element, ZyanMemberFunction constructor)
{
    return vector ? ZyanVectorEmplaceEx(vector, vector->size, element, constructor) : ZYAN_STATUS_INVALID_ARGUMENT;
}"""),
 (V, "fn:ZyanVectorSwapElements", """ZyanStatus ZyanVectorSwapElements(ZyanVector* vector, ZyanUSize index_first, ZyanUSize index_second)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((index_first >= vector->size) || (index_second >= vector->size))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    if (vector->size == vector->capacity)
    {
        return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
    }
    ZyanU8* const a = ZYCORE_VECTOR_OFFSET(vector, index_first);
    ZyanU8* const b = ZYCORE_VECTOR_OFFSET(vector, index_second);
    for (ZyanUSize i = 0; i < vector->element_size; ++i)
    {
        const ZyanU8 t = a[i];
        a[i] = b[i];
        b[i] = t;
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorFindEx", """ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanISize* found_index,
    ZyanEqualityComparison comparison, ZyanUSize index, ZyanUSize count)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((count > vector->size) || (index > vector->size - count))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    ZyanISize result = -1;
    for (ZyanUSize i = 0; (i < count) && (result < 0); ++i)
    {
        if (comparison(ZyanVectorGet(vector, index + i), element))
        {
            result = (ZyanISize)(index + i);
        }
    }
    *found_index = result;
    return (result < 0) ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE;
}"""),
 (V, "fn:ZyanVectorBinarySearchEx", """ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* element,
    ZyanUSize* found_index, ZyanComparison comparison, ZyanUSize index, ZyanUSize count)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((index > vector->size) || (count > vector->size - index))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    ZyanUSize low = index;
    ZyanUSize n = count;
    ZyanStatus status = ZYAN_STATUS_FALSE;
    while (n)
    {
        const ZyanUSize half = n / 2;
        const ZyanI32 cmp = comparison(ZYCORE_VECTOR_OFFSET(vector, low + half), element);
        if (cmp < 0)
        {
            low += half + 1;
            n -= half + 1;
        } else
        {
            if (!cmp)
            {
                status = ZYAN_STATUS_TRUE;
            }
            n = half;
        }
    }
    *found_index = low;
    return status;
}"""),
 (V, "fn:ZyanVectorGetMutable", """void* ZyanVectorGetMutable(const ZyanVector* vector, ZyanUSize index)
{
    return (void*)ZyanVectorGet(vector, index);
}"""),
 (V, "fn:ZyanVectorGetPointer", """ZyanStatus ZyanVectorGetPointer(const ZyanVector* vector, ZyanUSize index, const void** value)
{
    return ZyanVectorGetPointerMutable(vector, index, (void**)value);
}"""),
]),
"vector-order": (VEC, [
 (V, "fn:ZyanVectorInitEx", """ZyanStatus ZyanVectorInitEx(ZyanVector* vector, ZyanUSize element_size, ZyanUSize capacity,
    ZyanMemberProcedure destructor, ZyanAllocator* allocator, ZyanU8 growth_factor,
    ZyanU8 shrink_threshold)
{
    if (!growth_factor || !allocator || !element_size || !vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (capacity < ZYAN_VECTOR_MIN_CAPACITY)
    {
        capacity = ZYAN_VECTOR_MIN_CAPACITY;
    }
    vector->data             = ZYAN_NULL;
    vector->size             = 0;
    vector->capacity         = capacity;
    vector->element_size     = element_size;
    vector->destructor       = destructor;
    vector->allocator        = allocator;
    vector->growth_factor    = growth_factor;
    vector->shrink_threshold = shrink_threshold;
    void* data = ZYAN_NULL;
    const ZyanStatus status = allocator->allocate(allocator, &data, element_size, capacity);
    vector->data = data;
    return status;
}"""),
 (V, "fn:ZyanVectorReallocate", """static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
{
    if (!vector->allocator)
    {
        return (capacity <= vector->capacity) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
    }
    if (capacity < ZYAN_VECTOR_MIN_CAPACITY)
    {
        if (vector->capacity <= ZYAN_VECTOR_MIN_CAPACITY)
        {
            return ZYAN_STATUS_SUCCESS;
        }
        capacity = ZYAN_VECTOR_MIN_CAPACITY;
    }
    void* data = vector->data;
    const ZyanStatus status = vector->allocator->reallocate(vector->allocator, &data, vector->element_size, capacity);
    if (ZYAN_SUCCESS(status))
    {
        vector->data = data;
        vector->capacity = capacity;
        return ZYAN_STATUS_SUCCESS;
    }
    return status;
}

static ZyanStatus ZyanVectorMakeRoom(ZyanVector* vector, ZyanUSize size)
{
    if (size > vector->capacity)
    {
        ZyanUSize capacity = ZYCORE_VECTOR_NEW_CAPACITY(size, vector->growth_factor);
        if (!capacity)
        {
            capacity = 1;
        }
        return ZyanVectorReallocate(vector, capacity);
    }
    return ZYAN_STATUS_SUCCESS;
}

static ZyanStatus ZyanVectorGiveBack(ZyanVector* vector)
{
    if (!vector->shrink_threshold)
    {
        return ZYAN_STATUS_SUCCESS;
    }
    return (vector->capacity > vector->size * vector->shrink_threshold)
        ? ZyanVectorReallocate(vector, vector->size ? vector->size * vector->growth_factor : 1)
        : ZYAN_STATUS_SUCCESS;
}

static void ZyanVectorFinalize(ZyanVector* vector, ZyanUSize index, ZyanUSize count)
{
    if (!vector->destructor)
    {
        return;
    }
    ZyanU8* p = ZYCORE_VECTOR_OFFSET(vector, index);
    while (count--)
    {
        vector->destructor(p);
        p += vector->element_size;
    }
}"""),
 (V, "fn:ZyanVectorDeleteRange", """ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize count)
{
    if (!vector || !count)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((count > vector->size) || (index > vector->size - count))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    ZyanVectorFinalize(vector, index, count);
    if (index + count != vector->size)
    {
        ZYAN_CHECK(ZyanVectorShiftLeft(vector, index, count));
    }
    vector->size = vector->size - count;
    return ZyanVectorGiveBack(vector);
}"""),
 (V, "fn:ZyanVectorPopBack", """ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (vector->size < 1)
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    --vector->size;
    ZyanVectorFinalize(vector, vector->size, 1);
    return ZyanVectorGiveBack(vector);
}"""),
 (V, "fn:ZyanVectorInsertRange", """ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void* elements,
    ZyanUSize count)
{
    if (!vector || !elements || !count)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize old_size = vector->size;
    if (index > old_size)
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    ZYAN_CHECK(ZyanVectorMakeRoom(vector,
        (count > (ZyanUSize)-1 - old_size) ? (ZyanUSize)-1 : old_size + count));
    if (index < old_size)
    {
        ZYAN_CHECK(ZyanVectorShiftRight(vector, index, count));
    }
    vector->size = old_size + count;
    for (ZyanUSize i = 0; i < count; ++i)
    {
        ZYAN_MEMCPY(ZYCORE_VECTOR_OFFSET(vector, index + i), (const ZyanU8*)elements + i * vector->element_size, vector->element_size);
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorPushBack", """ZyanStatus ZyanVectorPushBack(ZyanVector* vector, const void* element)
{
    if (!element || !vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZYAN_CHECK(ZyanVectorMakeRoom(vector, vector->size + 1));
    ZYAN_MEMCPY(ZYCORE_VECTOR_OFFSET(vector, vector->size++), element, vector->element_size);
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorEmplaceEx", """ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** element,
    ZyanMemberFunction constructor)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (index > vector->size)
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    ZYAN_CHECK(ZyanVectorMakeRoom(vector, vector->size + 1));
    const ZyanBool inner = (index < vector->size) ? ZYAN_TRUE : ZYAN_FALSE;
    if (inner)
    {
        ZYAN_CHECK(ZyanVectorShiftRight(vector, index, 1));
    }
    void* const slot = ZYCORE_VECTOR_OFFSET(vector, index);
    *element = slot;
    ++vector->size;
    if (constructor)
    {
        const ZyanStatus status = constructor(slot);
        if (!ZYAN_SUCCESS(status))
        {
            if (inner)
            {
                ZYAN_CHECK(ZyanVectorShiftLeft(vector, index, 1));
            }
            --vector->size;
            return status;
        }
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorDestroy", """ZyanStatus ZyanVectorDestroy(ZyanVector* vector)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanVectorFinalize(vector, 0, vector->size);
    if (vector->allocator)
    {
        ZYAN_CHECK(vector->allocator->deallocate(vector->allocator, vector->data, vector->element_size, vector->capacity));
    }
    vector->data = ZYAN_NULL;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (V, "fn:ZyanVectorReserve", """ZyanStatus ZyanVectorReserve(ZyanVector* vector, ZyanUSize capacity)
{
    if (!vector)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (capacity <= vector->capacity)
    {
        return ZYAN_STATUS_SUCCESS;
    }
    return ZyanVectorReallocate(vector, capacity);
}"""),
 (V, "fn:ZyanVectorDuplicateEx", """ZyanStatus ZyanVectorDuplicateEx(ZyanVector* destination, const ZyanVector* source,
    ZyanUSize capacity, ZyanAllocator* allocator, ZyanU8 growth_factor, ZyanU8 shrink_threshold)
{
    if (!source)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (capacity < source->size)
    {
        capacity = source->size;
    }
    ZYAN_CHECK(ZyanVectorInitEx(destination, source->element_size, capacity, source->destructor,
        allocator, growth_factor, shrink_threshold));
    while (destination->size < source->size)
    {
        ZYAN_MEMCPY(ZYCORE_VECTOR_OFFSET(destination, destination->size), ZYCORE_VECTOR_OFFSET(source, destination->size), source->element_size);
        ++destination->size;
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"list-helpers": (LST, [
 (L, "fn:ZyanListDeallocateNode", """static ZyanStatus ZyanListDeallocateNode(ZyanList* list, ZyanListNode* node)
{
    if (!list->allocator)
    {
        node->next = list->first_unused;
        list->first_unused = node;
        return ZYAN_STATUS_SUCCESS;
    }
    return list->allocator->deallocate(list->allocator, node, sizeof(ZyanListNode) + list->element_size, 1);
}

static void ZyanListLink(ZyanList* list, ZyanListNode* prev, ZyanListNode* node, ZyanListNode* next)
{
    node->prev = prev;
    node->next = next;
    *(prev ? &prev->next : &list->head) = node;
    *(next ? &next->prev : &list->tail) = node;
    list->size++;
}

static ZyanStatus ZyanListDrop(ZyanList* list, ZyanListNode* node)
{
    ZyanListNode* const prev = node->prev;
    ZyanListNode* const next = node->next;
    if (list->destructor)
    {
        list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
    }
    *(prev ? &prev->next : &list->head) = next;
    *(next ? &next->prev : &list->tail) = prev;
    list->size--;
    return ZyanListDeallocateNode(list, node);
}"""),
 (L, "fn:ZyanListAllocateNode", """static ZyanStatus ZyanListAllocateNode(ZyanList* list, ZyanListNode** node)
{
    const ZyanUSize node_size = list->element_size + sizeof(ZyanListNode);
    if (list->allocator)
    {
        return list->allocator->allocate(list->allocator, (void**)node, node_size, 1);
    }
    if (list->first_unused)
    {
        *node = list->first_unused;
        list->first_unused = list->first_unused->next;
        return ZYAN_STATUS_SUCCESS;
    }
    if (list->size >= list->capacity / node_size)
    {
        return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
    }
    *node = (ZyanListNode*)((ZyanU8*)list->buffer + list->size * node_size);
    return ZYAN_STATUS_SUCCESS;
}"""),
 (L, "fn:ZyanListPushBack", """ZyanStatus ZyanListPushBack(ZyanList* list, const void* item)
{
    if (!item || !list)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanListNode* node;
    ZYAN_CHECK(ZyanListAllocateNode(list, &node));
    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), item, list->element_size);
    ZyanListLink(list, list->tail, node, ZYAN_NULL);
    return ZYAN_STATUS_SUCCESS;
}"""),
 (L, "fn:ZyanListPushFront", """ZyanStatus ZyanListPushFront(ZyanList* list, const void* item)
{
    if (!list || !item)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanListNode* node;
    ZYAN_CHECK(ZyanListAllocateNode(list, &node));
    ZyanListLink(list, ZYAN_NULL, node, list->head);
    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), item, list->element_size);
    return ZYAN_STATUS_SUCCESS;
}"""),
 (L, "fn:ZyanListEmplaceBack", """static ZyanStatus ZyanListEmplaceAt(ZyanList* list, void** item, ZyanMemberFunction constructor, ZyanBool front)
{
    if (!list || !item)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanListNode* node;
    ZYAN_CHECK(ZyanListAllocateNode(list, &node));
    *item = ZYCORE_LIST_GET_NODE_DATA(node);
    const ZyanStatus status = constructor ? constructor(*item) : ZYAN_STATUS_SUCCESS;
    if (!ZYAN_SUCCESS(status))
    {
        ZYAN_CHECK(ZyanListDeallocateNode(list, node));
        return status;
    }
    ZyanListLink(list, front ? ZYAN_NULL : list->tail, node, front ? list->head : ZYAN_NULL);
    return ZYAN_STATUS_SUCCESS;
}

ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction constructor)
{
    return ZyanListEmplaceAt(list, item, constructor, ZYAN_FALSE);
}"""),
 (L, "fn:ZyanListEmplaceFront", """ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction constructor)
{
    return ZyanListEmplaceAt(list, item, constructor, ZYAN_TRUE);
}"""),
 (L, "fn:ZyanListPopBack", """ZyanStatus ZyanListPopBack(ZyanList* list)
{
    if (!list)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    return list->tail ? ZyanListDrop(list, list->tail) : ZYAN_STATUS_INVALID_OPERATION;
}"""),
 (L, "fn:ZyanListPopFront", """ZyanStatus ZyanListPopFront(ZyanList* list)
{
    if (!list)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    return list->head ? ZyanListDrop(list, list->head) : ZYAN_STATUS_INVALID_OPERATION;
}"""),
 (L, "fn:ZyanListRemoveRange", """ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
{
    if (!list || !first || !last)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanListNode* const end = last->next;
    ZyanListNode* node = (ZyanListNode*)first;
    while (node != end)
    {
        ZyanListNode* const next = node->next;
        ZYAN_CHECK(ZyanListDrop(list, node));
        node = next;
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (L, "fn:ZyanListResizeEx", """ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initializer)
{
    if (!list)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (size == 0)
    {
        while (list->head)
        {
            ZYAN_CHECK(ZyanListDrop(list, list->head));
        }
        list->first_unused = ZYAN_NULL;
        return ZYAN_STATUS_SUCCESS;
    }
    while (list->size > size)
    {
        ZYAN_CHECK(ZyanListDrop(list, list->tail));
    }
    while (list->size < size)
    {
        ZyanListNode* node;
        ZYAN_CHECK(ZyanListAllocateNode(list, &node));
        if (initializer)
        {
            ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), initializer, list->element_size);
        }
        ZyanListLink(list, list->tail, node, ZYAN_NULL);
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (L, "fn:ZyanListDestroy", """ZyanStatus ZyanListDestroy(ZyanList* list)
{
    if (!list)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    for (ZyanListNode* node = list->head; node; )
    {
        ZyanListNode* const next = node->next;
        if (list->destructor)
        {
            list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
        }
        if (list->allocator)
        {
            ZYAN_CHECK(list->allocator->deallocate(list->allocator, node,
                sizeof(ZyanListNode) + list->element_size, 1));
        }
        node = next;
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"list-clear": (LST, [
 (L, "fn:ZyanListClear", """ZyanStatus ZyanListClear(ZyanList* list)
{
    if (!list)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    while (list->size)
    {
        ZYAN_CHECK(ZyanListPopFront(list));
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (L, "fn:ZyanListDestroy", """ZyanStatus ZyanListDestroy(ZyanList* list)
{
    return ZyanListClear(list);
}"""),
 (L, "fn:ZyanListSetNodeData", """ZyanStatus ZyanListSetNodeData(const ZyanList* list, const ZyanListNode* node, const void* value)
{
    if (!list || !node || !value)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    void* const data = (void*)ZyanListGetNodeData(node);
    if (list->destructor)
    {
        list->destructor(data);
    }
    const ZyanU8* p = value;
    for (ZyanUSize i = 0; i < list->element_size; ++i)
    {
        ((ZyanU8*)data)[i] = p[i];
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"string-mutate": (STR, [
 (S, "fn:ZyanStringAppendEx", """ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* source,
    ZyanUSize source_index, ZyanUSize count)
{
    if (!destination || !source || !source->string.vector.size)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize available = source->string.vector.size - 1;
    if ((source_index > available) || (count > available - source_index))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    const ZyanUSize old_length = destination->vector.size - 1;
    ZYAN_CHECK(ZyanVectorResize(&destination->vector, destination->vector.size + count));
    char* const out = (char*)destination->vector.data + old_length;
    const char* const in = (const char*)source->string.vector.data + source_index;
    for (ZyanUSize i = 0; i < count; ++i)
    {
        out[i] = in[i];
    }
    out[count] = '\\0';
    return ZYAN_STATUS_SUCCESS;
}"""),
 (S, "fn:ZyanStringAppend", """ZyanStatus ZyanStringAppend(ZyanString* destination, const ZyanStringView* source)
{
    if (!destination || !source || !source->string.vector.size)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    return ZyanStringAppendEx(destination, source, 0, source->string.vector.size - 1);
}"""),
 (S, "fn:ZyanStringInsert", """ZyanStatus ZyanStringInsert(ZyanString* destination, ZyanUSize index, const ZyanStringView* source)
{
    if (!destination || !source || !source->string.vector.size)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    return ZyanStringInsertEx(destination, index, source, 0, source->string.vector.size - 1);
}"""),
 (S, "fn:ZyanStringTruncate", """ZyanStatus ZyanStringTruncate(ZyanString* string, ZyanUSize index)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (index >= string->vector.size)
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    return ZyanStringDelete(string, index, string->vector.size - 1 - index);
}"""),
 (S, "fn:ZyanStringClear", """ZyanStatus ZyanStringClear(ZyanString* string)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZYAN_CHECK(ZyanVectorResizeEx(&string->vector, 0, ZYAN_NULL));
    string->vector.size = 1;
    ((char*)string->vector.data)[0] = 0;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (S, "fn:ZyanStringSetChar", """ZyanStatus ZyanStringSetChar(ZyanString* string, ZyanUSize index, char value)
{
    char* p;
    ZYAN_CHECK(ZyanStringGetCharMutable(string, index, &p));
    *p = value;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (S, "fn:ZyanStringDuplicateEx", """ZyanStatus ZyanStringDuplicateEx(ZyanString* destination, const ZyanStringView* source,
    ZyanUSize capacity, ZyanAllocator* allocator, ZyanU8 growth_factor, ZyanU8 shrink_threshold)
{
    if (!source || !source->string.vector.size)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize length = source->string.vector.size - 1;
    ZYAN_CHECK(ZyanStringInitEx(destination, (capacity < length) ? length : capacity, allocator, growth_factor, shrink_threshold));
    char* const out = destination->vector.data;
    for (ZyanUSize i = 0; i < length; ++i)
    {
        out[i] = ((const char*)source->string.vector.data)[i];
    }
    destination->vector.size += length;
    out[length] = '\\0';
    return ZYAN_STATUS_SUCCESS;
}"""),
 (S, "fn:ZyanStringConcatEx", """ZyanStatus ZyanStringConcatEx(ZyanString* destination, const ZyanStringView* s1,
    const ZyanStringView* s2, ZyanUSize capacity, ZyanAllocator* allocator, ZyanU8 growth_factor,
    ZyanU8 shrink_threshold)
{
    if (!s1 || !s2 || !s1->string.vector.size || !s2->string.vector.size)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize n1 = s1->string.vector.size - 1;
    const ZyanUSize n2 = s2->string.vector.size - 1;
    ZYAN_CHECK(ZyanStringInitEx(destination, ZYAN_MAX(capacity, n1 + n2), allocator, growth_factor, shrink_threshold));
    char* p = destination->vector.data;
    for (ZyanUSize i = 0; i < n1; ++i)
    {
        *p++ = ((const char*)s1->string.vector.data)[i];
    }
    for (ZyanUSize i = 0; i < n2; ++i)
    {
        *p++ = ((const char*)s2->string.vector.data)[i];
    }
    *p = '\\0';
    destination->vector.size = n1 + n2 + 1;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (S, "fn:ZyanStringViewInsideBuffer", """ZyanStatus ZyanStringViewInsideBuffer(ZyanStringView* view, const char* string)
{
    if (!view || !string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanUSize n = 0;
    while (string[n++]);
    view->string.vector.size = n;
    view->string.vector.data = (void*)string;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (S, "fn:ZyanStringViewInsideView", """ZyanStatus ZyanStringViewInsideView(ZyanStringView* view, const ZyanStringView* source)
{
    if (!view || !source)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    *view = *source;
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"string-search": (["P12", "P13", "P14"], [
 (S, "fn:ZyanStringLPosEx", """static ZyanStatus ZyanStringScan(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize low, ZyanUSize high, ZyanBool ignore_case, ZyanBool reverse)
{
    const char* const h = haystack->string.vector.data;
    const char* const n = needle->string.vector.data;
    const ZyanUSize m = needle->string.vector.size - 1;
    *found_index = -1;
    if (!m || (m > high - low))
    {
        return ZYAN_STATUS_FALSE;
    }
    for (ZyanUSize k = 0; k <= high - low - m; ++k)
    {
        const ZyanUSize at = reverse ? high - m - k : low + k;
        ZyanUSize j = 0;
        while (j < m && (h[at + j] == n[j] || (ignore_case && ZyanStringEqualsCharI(h[at + j], n[j]))))
        {
            ++j;
        }
        if (j == m)
        {
            *found_index = (ZyanISize)at;
            return ZYAN_STATUS_TRUE;
        }
    }
    return ZYAN_STATUS_FALSE;
}

static ZyanStatus ZyanStringPosCheckedL(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize index, ZyanUSize count, ZyanBool ignore_case)
{
    if (!haystack || !needle || !found_index)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((index >= haystack->string.vector.size) ||
        (count >= haystack->string.vector.size - index))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    return ZyanStringScan(haystack, needle, found_index, index, index + count, ignore_case, ZYAN_FALSE);
}

static ZyanStatus ZyanStringPosCheckedR(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize index, ZyanUSize count, ZyanBool ignore_case)
{
    if (!haystack || !needle || !found_index)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((index >= haystack->string.vector.size) || (count > index))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    return ZyanStringScan(haystack, needle, found_index, index - count, index, ignore_case, ZYAN_TRUE);
}

ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize index, ZyanUSize count)
{
    return ZyanStringPosCheckedL(haystack, needle, found_index, index, count, ZYAN_FALSE);
}"""),
 (S, "fn:ZyanStringLPosIEx", """ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize index, ZyanUSize count)
{
    return ZyanStringPosCheckedL(haystack, needle, found_index, index, count, ZYAN_TRUE);
}"""),
 (S, "fn:ZyanStringRPosEx", """ZyanStatus ZyanStringRPosEx(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize index, ZyanUSize count)
{
    return ZyanStringPosCheckedR(haystack, needle, found_index, index, count, ZYAN_FALSE);
}"""),
 (S, "fn:ZyanStringRPosIEx", """ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringView* needle,
    ZyanISize* found_index, ZyanUSize index, ZyanUSize count)
{
    return ZyanStringPosCheckedR(haystack, needle, found_index, index, count, ZYAN_TRUE);
}"""),
 (S, "fn:ZyanStringCompare", """static ZyanI32 ZyanStringOrder(char a, char b)
{
    const int fa = a | 32, fb = b | 32;
    return (fa != fb) ? ((fa < fb) ? -1 : 1) : ((a < b) ? -1 : 1);
}

ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2, ZyanI32* result)
{
    if (!s1 || !s2)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize n1 = s1->string.vector.size, n2 = s2->string.vector.size;
    if (n1 != n2)
    {
        *result = (n1 < n2) ? -1 : 1;
        return ZYAN_STATUS_FALSE;
    }
    const char* a = s1->string.vector.data;
    const char* b = s2->string.vector.data;
    for (ZyanUSize i = 1; i < n1; ++i, ++a, ++b)
    {
        if (*a != *b)
        {
            *result = ZyanStringOrder(*a, *b);
            return ZYAN_STATUS_FALSE;
        }
    }
    *result = 0;
    return ZYAN_STATUS_TRUE;
}"""),
 (S, "fn:ZyanStringToLowerCaseEx", """ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSize count)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if ((index >= string->vector.size) || (count >= string->vector.size - index))
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    for (char* s = (char*)string->vector.data + index + count; count--; )
    {
        --s;
        *s += ((*s >= 'A') && (*s <= 'Z')) ? 'a' - 'A' : 0;
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"format-digits": (FMT, [
 (F, "fn:ZyanStringAppendDecU64", """static ZyanStatus ZyanStringAppendDigits(ZyanString* string, const char* digits, ZyanUSize n, ZyanUSize padding_length)
{
    const ZyanUSize zeros = (padding_length > n) ? padding_length - n : 0;
    const ZyanUSize len = string->vector.size;
    if (len + zeros + n > string->vector.capacity)
    {
        ZYAN_CHECK(ZyanStringResize(string, len - 1 + zeros + n));
    }
    char* const out = (char*)string->vector.data + len - 1;
    for (ZyanUSize i = 0; i < zeros; ++i)
    {
        out[i] = '0';
    }
    for (ZyanUSize i = 0; i < n; ++i)
    {
        out[zeros + i] = digits[i];
    }
    string->vector.size = len + zeros + n;
    ZYCORE_STRING_NULLTERMINATE(string);
    return ZYAN_STATUS_SUCCESS;
}

ZyanStatus ZyanStringAppendDecU64(ZyanString* string, ZyanU64 value, ZyanU8 padding_length)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    char buffer[ZYCORE_MAXCHARS_DEC_64];
    ZyanUSize n = 0;
    do
    {
        buffer[ZYCORE_MAXCHARS_DEC_64 - 1 - n++] = (char)('0' + value % 10);
        value /= 10;
    } while (value);
    return ZyanStringAppendDigits(string, buffer + ZYCORE_MAXCHARS_DEC_64 - n, n, padding_length);
}"""),
 (F, "fn:ZyanStringAppendHexU64", """ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padding_length,
    ZyanBool uppercase)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const char* const alphabet = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
    char buffer[ZYCORE_MAXCHARS_HEX_64];
    ZyanUSize n = 0;
    do
    {
        buffer[ZYCORE_MAXCHARS_HEX_64 - 1 - n++] = alphabet[value & 15];
        value >>= 4;
    } while (value);
    return ZyanStringAppendDigits(string, buffer + ZYCORE_MAXCHARS_HEX_64 - n, n, padding_length);
}"""),
 (F, "fn:ZyanStringAppendHexS", """ZyanStatus ZyanStringAppendHexS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
    ZyanBool uppercase, ZyanBool force_sign, const ZyanStringView* prefix)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize length = string->vector.size - 1;
    const ZyanStringView* const sign = (value < 0) ? &STR_SUB : (force_sign ? &STR_ADD : ZYAN_NULL);
    ZyanStatus status = sign ? ZyanStringAppend(string, sign) : ZYAN_STATUS_SUCCESS;
    if (ZYAN_SUCCESS(status) && prefix)
    {
        status = ZyanStringAppend(string, prefix);
    }
    if (ZYAN_SUCCESS(status))
    {
        const ZyanU64 magnitude = (value < 0) ? (ZyanU64)0 - (ZyanU64)value : (ZyanU64)value;
        status = ZyanStringAppendHexU64(string, magnitude, padding_length, uppercase);
    }
    if (!ZYAN_SUCCESS(status))
    {
        string->vector.size = length + 1;
        ((char*)string->vector.data)[length] = '\\0';
    }
    return status;
}"""),
 (F, "fn:ZyanStringAppendFormat", """ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
{
    if (!string || !format)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize length = string->vector.size - 1;
    ZyanVAList arglist;
    ZYAN_VA_START(arglist, format);
    const ZyanI32 n = ZYAN_VSNPRINTF(ZYAN_NULL, 0, format, arglist);
    ZYAN_VA_END(arglist);
    if (n < 0)
    {
        return ZYAN_STATUS_FAILED;
    }
    if (length + n + 1 > string->vector.capacity)
    {
        ZYAN_CHECK(ZyanStringResize(string, length + n));
    }
    ZYAN_VA_START(arglist, format);
    const ZyanI32 m = ZYAN_VSNPRINTF((char*)string->vector.data + length, (ZyanUSize)n + 1, format, arglist);
    ZYAN_VA_END(arglist);
    if (m < 0)
    {
        string->vector.size = length + 1;
        ZYCORE_STRING_NULLTERMINATE(string);
        return ZYAN_STATUS_FAILED;
    }
    string->vector.size = length + n + 1;
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"bitset": (["P15", "P16", "P17", "P26", "P29"], [
 (B, "fn:ZyanBitsetCount", """ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
{
    if (!bitset || !count)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanUSize n = 0;
    for (ZyanUSize i = 0; i < bitset->size; ++i)
    {
        n += (((const ZyanU8*)bitset->bits.data)[i / 8] >> ZYAN_BITSET_BIT_OFFSET(i)) & 1;
    }
    *count = n;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (B, "fn:ZyanBitsetAny", """ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
{
    ZyanUSize n;
    ZYAN_CHECK(ZyanBitsetCount(bitset, &n));
    return n ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE;
}"""),
 (B, "fn:ZyanBitsetNone", """ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
{
    ZyanUSize n;
    ZYAN_CHECK(ZyanBitsetCount(bitset, &n));
    return n ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE;
}"""),
 (B, "fn:ZyanBitsetAll", """ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
{
    ZyanUSize n;
    ZYAN_CHECK(ZyanBitsetCount(bitset, &n));
    return (n == bitset->size) ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE;
}"""),
 (B, "fn:ZyanBitsetFlip", """ZyanStatus ZyanBitsetFlip(ZyanBitset* bitset)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    for (ZyanUSize i = 0; i < bitset->size; ++i)
    {
        ZYAN_CHECK(ZyanBitsetToggle(bitset, i));
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (B, "fn:ZyanBitsetSetAll", """ZyanStatus ZyanBitsetSetAll(ZyanBitset* bitset)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    for (ZyanUSize i = bitset->size; i > 0; --i)
    {
        ZYAN_CHECK(ZyanBitsetSet(bitset, i - 1));
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
 (B, "fn:ZyanBitsetResetAll", """ZyanStatus ZyanBitsetResetAll(ZyanBitset* bitset)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZYAN_MEMSET(bitset->bits.data, 0, bitset->bits.size);
    return ZYAN_STATUS_SUCCESS;
}"""),
 (B, "fn:ZyanBitsetPop", """ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    if (!bitset->size)
    {
        return ZYAN_STATUS_OUT_OF_RANGE;
    }
    const ZyanUSize size = bitset->size - 1;
    bitset->size = size;
    return (size & 7) ? ZYAN_STATUS_SUCCESS : ZyanVectorPopBack(&bitset->bits);
}"""),
 (B, "fn:ZyanBitsetPush", """ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanUSize index = bitset->size;
    if (!(index & 7))
    {
        const ZyanU8 byte = value ? 0x80 : 0;
        ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &byte));
        bitset->size = index + 1;
        return ZYAN_STATUS_SUCCESS;
    }
    bitset->size = index + 1;
    return ZyanBitsetAssign(bitset, index, value);
}"""),
 (B, "fn:ZyanBitsetInitVectorElements", """static ZyanStatus ZyanBitsetInitVectorElements(ZyanVector* vector, ZyanUSize count)
{
    static const ZyanU8 zero = 0;
    return ZyanVectorResizeEx(vector, count, &zero);
}"""),
 (B, "fn:ZyanBitsetPerformByteOperation", """ZyanStatus ZyanBitsetPerformByteOperation(ZyanBitset* destination, const ZyanBitset* source,
    ZyanBitsetByteOperation operation)
{
    if (!destination || !source || !operation)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    ZyanU8* d = destination->bits.data;
    const ZyanU8* s = source->bits.data;
    for (ZyanUSize n = ZYAN_MIN(destination->bits.size, source->bits.size); n > 0; --n)
    {
        ZYAN_CHECK(operation(d++, s++));
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"argparse": (["P20", "P21", "P26", "P29"], [
 (A, "all", "ZYAN_STRCMP(def->name, cur_arg) == 0", "(ZYAN_STRLEN(def->name) == arg_len && !ZYAN_MEMCMP(def->name, cur_arg, arg_len))"),
 (A, "all", "cfg->argc, ZYAN_NULL, allocator,", "0, ZYAN_NULL, allocator,"),
 (A, "all", "    ZyanStatus err;\n", "    ZyanStatus err = ZYAN_STATUS_SUCCESS;\n"),
 (A, "fn:ZyanArgParseEx", None),
]),
"argparse-order": (["P20", "P21", "P26"], [
 (A, "ZyanStatus ZyanArgParseEx", "        ++num_unnamed_args;\n        if (num_unnamed_args > cfg->max_unnamed_args)\n        {\n", "        if (num_unnamed_args++ >= cfg->max_unnamed_args)\n        {\n"),
 (A, "ZyanStatus ZyanArgParseEx", "            if (!arg->def) continue;\n\n            if (arg->def == def)", "            if (arg->def == def)"),
 (A, "ZyanStatus ZyanArgParseEx", "ZYAN_MEMCMP(cur_arg, \"--\", 2) == 0", "cur_arg[0] == '-' && cur_arg[1] == '-'"),
 (A, "ZyanStatus ZyanArgParseEx", "ZYAN_STRLEN(def->name) == 2 &&\n                        def->name[0] == '-' &&\n                        def->name[1] == *read_ptr", "def->name[0] == '-' && def->name[1] != '-' && def->name[1] == *read_ptr && !def->name[2]"),
 (A, "ZyanStatus ZyanArgParseEx", "for (ZyanUSize i = 0; i < num_parsed_args; ++i)", "for (ZyanUSize i = num_parsed_args; i-- > 0; )"),
]),
"allocator": (["P28", "P01", "P03", "P07", "P10", "P29"], [
 (AL, "fn:ZyanAllocatorDefaultAllocate", """static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void** p,
    ZyanUSize element_size, ZyanUSize n)
{
    ZYAN_UNUSED(allocator);
    const ZyanUSize total = element_size * n;
    if (total / element_size != n)
    {
        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    }
    void* const x = ZYAN_CALLOC(1, total);
    *p = x;
    return x ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_NOT_ENOUGH_MEMORY;
}"""),
 (AL, "fn:ZyanAllocatorInit", """ZyanStatus ZyanAllocatorInit(ZyanAllocator* allocator, ZyanAllocatorAllocate allocate,
    ZyanAllocatorAllocate reallocate, ZyanAllocatorDeallocate deallocate)
{
    if (!deallocate || !reallocate || !allocate || !allocator)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
    const ZyanAllocator value = { allocate, reallocate, deallocate };
    *allocator = value;
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"allocator-move": (["P28", "P03", "P29"], [
 (AL, "fn:ZyanAllocatorDefaultDeallocate", """static ZyanStatus ZyanAllocatorDefaultDeallocate(ZyanAllocator* allocator, void* p,
    ZyanUSize element_size, ZyanUSize n)
{
    ZYAN_UNUSED(allocator);
    ZYAN_UNUSED(element_size);
    ZYAN_UNUSED(n);
    if (p)
    {
        ZYAN_FREE(p);
    }
    return ZYAN_STATUS_SUCCESS;
}"""),
]),
"libc": (["P26"], [
 (I + "LibC.h", "fn:ZYAN_MEMMOVE", """ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
{
    volatile ZyanU8* pd = dst;
    const ZyanU8* ps = src;
    if ((ZyanUPointer)pd - (ZyanUPointer)ps < n)
    {
        while (n)
        {
            --n;
            pd[n] = ps[n];
        }
        return dst;
    }
    for (ZyanUSize i = 0; i < n; ++i)
    {
        pd[i] = ps[i];
    }
    return dst;
}"""),
 (I + "LibC.h", "fn:ZYAN_MEMCMP", """ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
{
    const ZyanU8* a = s1;
    const ZyanU8* b = s2;
    for (ZyanUSize i = 0; i < n; ++i)
    {
        if (a[i] != b[i])
        {
            return (a[i] < b[i]) ? -1 : 1;
        }
    }
    return 0;
}"""),
 (I + "LibC.h", "fn:ZYAN_STRCMP", """ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
{
    for (;; ++s1, ++s2)
    {
        const ZyanU8 a = (ZyanU8)*s1, b = (ZyanU8)*s2;
        if (a != b || !a)
        {
            return (a > b) - (a < b);
        }
    }
}"""),
 (I + "LibC.h", "fn:ZYAN_STRSTR", """ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
{
    for (;; ++s1)
    {
        ZyanUSize i = 0;
        while (s2[i] && s1[i] == s2[i])
        {
            ++i;
        }
        if (!s2[i])
        {
            return (char*)s1;
        }
        if (!*s1)
        {
            return 0;
        }
    }
}"""),
 (I + "LibC.h", "fn:ZYAN_STRRCHR", """ZYAN_INLINE char* ZYAN_STRRCHR(const char* s, int c)
{
    for (ZyanUSize i = ZYAN_STRLEN(s) + 1; i > 0; --i)
    {
        if (s[i - 1] == (char)c)
        {
            return (char*)s + i - 1;
        }
    }
    return 0;
}"""),
 (I + "LibC.h", "fn:ZYAN_STRXFRM", """ZYAN_INLINE ZyanUSize ZYAN_STRXFRM(char* dest, const char* src, ZyanUSize n)
{
    ZyanUSize i = 0;
    while (src[i])
    {
        if (i < n)
        {
            dest[i] = src[i];
        }
        ++i;
    }
    if (i < n)
    {
        dest[i] = 0;
    }
    return i;
}"""),
 (I + "LibC.h", "fn:ZYAN_STRNCPY", """ZYAN_INLINE char* ZYAN_STRNCPY(char* dest, const char* src, ZyanUSize n)
{
    ZyanUSize i;
    for (i = 0; i < n && src[i]; ++i)
    {
        dest[i] = src[i];
    }
    for (; i < n; ++i)
    {
        dest[i] = '\\0';
    }
    return dest;
}"""),
 (I + "LibC.h", "fn:ZYAN_STRSPN", """ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
{
    const char* p = s1;
    for (; *p; ++p)
    {
        const char* q = s2;
        while (*q && *q != *p)
        {
            ++q;
        }
        if (!*q)
        {
            break;
        }
    }
    return (ZyanUSize)(p - s1);
}"""),
]),
"api": (["P22", "P23", "P25", "P29"], [
 (API + "Memory.c", "ZyanU32 ZyanMemoryGetSystemAllocationGranularity(void)", "return sysconf(_SC_PAGE_SIZE);", "return ZyanMemoryGetSystemPageSize();"),
 (API + "Memory.c", "ZyanU32 ZyanMemoryGetSystemPageSize(void)", "return sysconf(_SC_PAGE_SIZE);", "return (ZyanU32)getpagesize();"),
 (API + "Memory.c", "ZyanStatus ZyanMemoryVirtualProtect", "    if (mprotect(address, size, protection))\n    {\n        return ZYAN_STATUS_BAD_SYSTEMCALL;\n    }", "    const int result = mprotect(address, size, (int)protection);\n    return (result == 0) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_BAD_SYSTEMCALL;"),
 (API + "Terminal.c", "ZyanStatus ZyanTerminalIsTTY", "    switch (stream)\n    {\n    case ZYAN_STDSTREAM_IN:\n        file = STDIN_FILENO;", "    file = (stream == ZYAN_STDSTREAM_IN) ? 0 : ((stream == ZYAN_STDSTREAM_OUT) ? 1 : 2);\n    switch (stream)\n    {\n    case ZYAN_STDSTREAM_IN:\n        file = STDIN_FILENO;"),
 (API + "Terminal.c", "ZyanStatus ZyanTerminalIsTTY", "    if (ZYAN_ERRNO == EBADF)\n    {\n        // Invalid file descriptor\n        return ZYAN_STATUS_INVALID_ARGUMENT;\n    }\n    //ZYAN_ASSERT((errno == EINVAL) || (errno == ENOTTY));\n\n    return ZYAN_STATUS_FALSE;", "    // Invalid file descriptor\n    return (ZYAN_ERRNO == EBADF) ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_FALSE;"),
 (API + "Synchronization.c", "fn:ZyanCriticalSectionEnter", """ZyanStatus ZyanCriticalSectionEnter(ZyanCriticalSection* critical_section)
{
    switch (pthread_mutex_lock(critical_section))
    {
    case 0:
        return ZYAN_STATUS_SUCCESS;
    case EINVAL:
        return ZYAN_STATUS_INVALID_ARGUMENT;
    case EAGAIN:
        return ZYAN_STATUS_INVALID_OPERATION;
    default:
        return ZYAN_STATUS_BAD_SYSTEMCALL;
    }
}"""),
 (API + "Synchronization.c", "fn:ZyanCriticalSectionTryEnter", """ZyanBool ZyanCriticalSectionTryEnter(ZyanCriticalSection* critical_section)
{
    return (pthread_mutex_trylock(critical_section) == 0);
}"""),
 (API + "Thread.c", "fn:ZyanThreadGetCurrentThreadId", """ZyanStatus ZyanThreadGetCurrentThreadId(ZyanThreadId* thread_id)
{
    ZyanThread thread;
    ZYAN_CHECK(ZyanThreadGetCurrentThread(&thread));
    const ZyanThreadId* const id = (const ZyanThreadId*)thread;
    *thread_id = *id;
    return ZYAN_STATUS_SUCCESS;
}"""),
 (API + "Thread.c", "fn:ZyanThreadTlsAlloc", """ZyanStatus ZyanThreadTlsAlloc(ZyanThreadTlsIndex* index, ZyanThreadTlsCallback destructor)
{
    ZyanThreadTlsIndex value;
    switch (pthread_key_create(&value, destructor))
    {
    case 0:
        *index = value;
        return ZYAN_STATUS_SUCCESS;
    case EAGAIN:
        return ZYAN_STATUS_OUT_OF_RESOURCES;
    case ENOMEM:
        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    default:
        return ZYAN_STATUS_BAD_SYSTEMCALL;
    }
}"""),
]),
"atomics": (["P24", "P29"], [
 (I + "Internal/AtomicGNU.h", "fn:ZyanAtomicIncrement64", """ZYAN_INLINE ZyanU64 ZyanAtomicIncrement64(ZyanAtomic64* destination)
{
    for (;;)
    {
        const ZyanU64 value = destination->value;
        if (__sync_bool_compare_and_swap(&destination->value, value, value + 1))
        {
            return value + 1;
        }
    }
}"""),
 (I + "Internal/AtomicGNU.h", "fn:ZyanAtomicDecrement64", """ZYAN_INLINE ZyanU64 ZyanAtomicDecrement64(ZyanAtomic64* destination)
{
    return __atomic_fetch_sub(&destination->value, 1, __ATOMIC_SEQ_CST) - 1;
}"""),
 (I + "Internal/AtomicGNU.h", "fn:ZyanAtomicCompareExchange32", """ZYAN_INLINE ZyanU32 ZyanAtomicCompareExchange32(ZyanAtomic32* destination,
    ZyanU32 comparand, ZyanU32 value)
{
    ZyanU32 expected = comparand;
    __atomic_compare_exchange_n(&destination->value, &expected, value, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    return expected;
}"""),
 (I + "Internal/AtomicGNU.h", "fn:ZyanAtomicIncrement32", """ZYAN_INLINE ZyanU32 ZyanAtomicIncrement32(ZyanAtomic32* destination)
{
    return __sync_add_and_fetch(&destination->value, 1);
}"""),
 (I + "Internal/AtomicGNU.h", "fn:ZyanAtomicDecrement", """ZYAN_INLINE ZyanUPointer ZyanAtomicDecrement(ZyanAtomicPointer* destination)
{
    return (ZyanUPointer)__atomic_sub_fetch((ZyanUPointer*)&destination->value, 1, __ATOMIC_SEQ_CST);
}"""),
]),
"macros": (["P13", "P18", "P19", "P27", "P30", "P26"], [
 (I + "Defines.h", "#define ZYAN_MIN(a, b)", "(((a) < (b)) ? (a) : (b))", "(((b) <= (a)) ? (b) : (a))"),
 (I + "Defines.h", "#define ZYAN_MAX(a, b)", "(((a) > (b)) ? (a) : (b))", "(((b) >= (a)) ? (b) : (a))"),
 (I + "Defines.h", "#define ZYAN_IS_ALIGNED_TO", "(((x) & ((align) - 1)) == 0)", "(!((x) % (align)))"),
 (I + "Defines.h", "#define ZYAN_ALIGN_DOWN", "((x) & ~((align) - 1))", "((x) - ((x) & ((align) - 1)))"),
 (I + "Status.h", "#define ZYAN_SUCCESS", "(!((status) & 0x80000000u))", "(((status) & 0x80000000u) == 0)"),
 (I + "Status.h", "#define ZYAN_FAILED", "((status) & 0x80000000u)", "(((status) >> 31u) != 0)"),
 (I + "Status.h", "#define ZYAN_STATUS_MODULE", "(((status) >> 20) & 0x7FFu)", "(((status) & 0x7FF00000u) >> 20u)"),
 (I + "Status.h", "#define ZYAN_CHECK", "if (!ZYAN_SUCCESS(status_047620348))", "if (ZYAN_FAILED(status_047620348))"),
 (I + "Format.h", "fn:ZyanAbsI64", """ZYAN_INLINE ZyanU64 ZyanAbsI64(ZyanI64 x)
{
    return (x < 0) ? ((ZyanU64)0 - (ZyanU64)x) : (ZyanU64)x;
}"""),
 (I + "Comparison.h", "#define ZYAN_DECLARE_COMPARISON(name, type)", """        if (*left < *right) \\
        { \\
            return -1; \\
        } \\
        if (*left > *right) \\
        { \\
            return  1; \\
        } \\
        return 0; \\
""", """        return (*left > *right) - (*left < *right); \\
"""),
]),
"vector-realloc": ("P01 P03 P04 P05 P10 P15 P17 P19 P20".split(), [
 (V, "static ZyanStatus ZyanVectorReallocate", """    ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
        vector->element_size, capacity));
""", """    if (capacity == vector->capacity)
    {
        return ZYAN_STATUS_SUCCESS;
    }
    void* data = ZYAN_NULL;
    ZYAN_CHECK(vector->allocator->allocate(vector->allocator, &data, vector->element_size, capacity));
    ZYAN_MEMCPY(data, vector->data, vector->element_size * ZYAN_MIN(vector->capacity, capacity));
    ZYAN_CHECK(vector->allocator->deallocate(vector->allocator, vector->data, vector->element_size, vector->capacity));
    vector->data = data;
"""),
]),
}
def replace(t, e):
    if e[1].startswith("fn:"):
        name = e[1][3:]
        m = re.search(r"(?m)^[A-Za-z][^\n;=]*\b%s\([^;{]*?\)\s*\n\{" % re.escape(name), t)
        if not m: return None
        s = m.start(); j = t.index("\n}", m.end()) + 2
        return t[:s] + e[2] + t[j:]
    if e[1] == "all": return t.replace(e[2], e[3]) if e[2] in t else None
    i = t.find(e[1])
    if i < 0: return None
    j = t.find(e[2], i)
    return None if j < 0 else t[:j] + e[3] + t[j + len(e[2]):]
def edit(d, es):
    for e in es:
        if e[-1] is None: continue
        p = os.path.join(d, e[0]); t = replace(open(p).read(), e)
        if t is None: return "no place for %s %s" % e[:2]
        open(p, "w").write(t)
def one(name, j, tests):
    pids, es = R[name]; d = T.copy("ref-" + name)
    try:
        e = edit(d, es)
        if e: return [(name, e)]
        if tests:
            r = T.build(d)
            if r.returncode: return [(name, "does not build " + r.stdout[-600:])]
            b = T.tests(d)
            if b: return [(name, "tests fail " + str(b[:3]))]
        def run(p):
            r = T.sh("%s/bin/check %s quick" % (SNAP, p), SNAP, 900, dict(os.environ, ZV_REPO=d, VERIF_SEED="1"))
            return name, "%s %s" % (p, "quiet" if r.returncode == 0 else "ALARM (exit %d) %s" % (r.returncode, r.stdout[-500:]))
        with ThreadPoolExecutor(j) as ex: return list(ex.map(run, pids))
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    j = 2; pats = []; tests = False
    for a in sys.argv[1:]:
        if a.startswith("-j"): j = int(a[2:])
        elif a == "--tests": tests = True
        else: pats.append(a)
    shutil.rmtree(SNAP, ignore_errors=True); shutil.copytree(T.ROOT, SNAP, ignore=shutil.ignore_patterns("out", "evidence", ".git", "seeded"))
    for n in R:
        if pats and not any(re.match(p, n) for p in pats): continue
        for a, s in one(n, j, tests): print(a, s, flush=True)
