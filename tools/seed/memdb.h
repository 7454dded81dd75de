/* In-memory storage with erase tracking, an operation log and fault injection, for the demonstrations. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#error C only
#endif
#include "embedDB.h"
#include "embedDBUtility.h"

typedef struct {
    uint8_t *bytes;
    uint8_t *used; /* 1: written since the last erase */
    uint32_t pages, pageSize;
    int exists;
    int unsynced; /* writes since the last flush */
    int overwrites; /* writes to pages not erased */
    int outside;    /* operations outside the file */
} MemFile;
typedef struct {
    char op;
    MemFile *f;
    uint32_t page, end;
    int ok;
} MemOp;
static MemOp memLog[1 << 18];
static int memOps = 0;
static char memFailOp = 0; /* operation to fail */
static MemFile *memFailFile = NULL;
static int memFailAt = -1; /* countdown; fails when it reaches 0 */
static int memFailed = 0;
static int memStay = 0; /* keep failing */

static int memFail(char op, MemFile *f) {
    if (memFailOp != op || (memFailFile && memFailFile != f) || memFailAt < 0) return 0;
    if (memFailAt-- == 0) {
        if (memStay) memFailAt = 0;
        memFailed++;
        return 1;
    }
    return 0;
}
static void memNote(char op, MemFile *f, uint32_t a, uint32_t b, int ok) {
    if (memOps < (1 << 18)) {
        MemOp o = {op, f, a, b, ok};
        memLog[memOps++] = o;
    }
}
static int8_t memRead(void *buffer, uint32_t p, uint32_t size, void *file) {
    MemFile *f = (MemFile *)file;
    int ok = p < f->pages && !memFail('r', f);
    memNote('r', f, p, p, ok);
    if (!ok) {
        memset(buffer, 0xEE, size); /* a failed read leaves garbage */
        return 0;
    }
    memcpy(buffer, f->bytes + p * (size_t)size, size);
    return 1;
}
static int8_t memWrite(void *buffer, uint32_t p, uint32_t size, void *file) {
    MemFile *f = (MemFile *)file;
    int ok = !memFail('w', f);
    memNote('w', f, p, p, ok);
    if (p >= f->pages) {
        f->outside++;
        return 0;
    }
    if (!ok) return 0;
    if (f->used[p]) f->overwrites++;
    f->used[p] = 1;
    f->unsynced++;
    memcpy(f->bytes + p * (size_t)size, buffer, size);
    return 1;
}
static int8_t memErase(id_t a, id_t b, uint32_t size, void *file) {
    MemFile *f = (MemFile *)file;
    int ok = !memFail('e', f);
    memNote('e', f, a, b, ok);
    if (b > f->pages || a > b) {
        f->outside++;
        if (b > f->pages) b = f->pages;
    }
    if (!ok) return 0;
    for (; a < b; a++) {
        f->used[a] = 0;
        memset(f->bytes + a * (size_t)size, 0xFF, size);
    }
    return 1;
}
static int8_t memClose(void *file) {
    memNote('c', (MemFile *)file, 0, 0, 1);
    return 1;
}
static int8_t memOpen(void *file, uint8_t mode) {
    MemFile *f = (MemFile *)file;
    int ok = !memFail('o', f);
    memNote('o', f, mode, 0, ok);
    if (!ok) return 0;
    if (mode == EMBEDDB_FILE_MODE_R_PLUS_B) return f->exists;
    f->exists = 1;
    memset(f->bytes, 0xFF, f->pages * (size_t)f->pageSize);
    memset(f->used, 0, f->pages);
    return 1;
}
static int8_t memFlush(void *file) {
    MemFile *f = (MemFile *)file;
    int ok = !memFail('f', f);
    memNote('f', f, 0, 0, ok);
    if (ok) f->unsynced = 0;
    return ok;
}
static embedDBFileInterface memInterface = {memRead, memWrite, memErase, memClose, memOpen, memFlush};

static MemFile *memFile(uint32_t pages, uint32_t pageSize) {
    MemFile *f = (MemFile *)calloc(1, sizeof(MemFile));
    f->pages = pages;
    f->pageSize = pageSize;
    f->bytes = (uint8_t *)malloc(pages * (size_t)pageSize);
    memset(f->bytes, 0xFF, pages * (size_t)pageSize);
    f->used = (uint8_t *)calloc(pages, 1);
    return f;
}

/* a state with 4-byte keys; call embedDBInit afterwards */
static embedDBState *memState(int16_t params, uint16_t pageSize, uint32_t nData, uint32_t nIdx, uint32_t nVar, uint16_t erase, int8_t dataSize) {
    embedDBState *s = (embedDBState *)calloc(1, sizeof(embedDBState));
    s->keySize = 4;
    s->dataSize = dataSize;
    s->pageSize = pageSize;
    s->bufferSizeInBlocks = 6;
    s->numSplinePoints = 300;
    s->buffer = calloc(7, pageSize);
    s->numDataPages = nData;
    s->numIndexPages = nIdx;
    s->numVarPages = nVar;
    s->eraseSizeInPages = erase;
    s->fileInterface = &memInterface;
    s->dataFile = memFile(nData, pageSize);
    s->indexFile = memFile(nIdx ? nIdx : 1, pageSize);
    s->varFile = memFile(nVar ? nVar : 1, pageSize);
    s->parameters = params;
    s->bitmapSize = (params & EMBEDDB_USE_BMAP) ? 1 : 0;
    s->inBitmap = inBitmapInt8;
    s->updateBitmap = updateBitmapInt8;
    s->buildBitmapFromRange = buildBitmapInt8FromRange;
    s->compareKey = int32Comparator;
    s->compareData = int32Comparator;
    return s;
}
/* another state over the same storage, to recover from it */
static embedDBState *memReopen(embedDBState *o) {
    embedDBState *s = memState(o->parameters & ~EMBEDDB_RESET_DATA, o->pageSize, o->numDataPages, o->numIndexPages, o->numVarPages,
                               o->eraseSizeInPages, o->dataSize);
    s->dataFile = o->dataFile ? o->dataFile : s->dataFile;
    s->indexFile = o->indexFile ? o->indexFile : s->indexFile;
    s->varFile = o->varFile ? o->varFile : s->varFile;
    return s;
}
#define DF(s) ((MemFile *)(s)->dataFile)
#define XF(s) ((MemFile *)(s)->indexFile)
#define VF(s) ((MemFile *)(s)->varFile)
#define CHECK(c, ...)                                   \
    do {                                                \
        if (!(c)) {                                     \
            printf("FAILED line %d: %s: ", __LINE__, #c); \
            printf(__VA_ARGS__);                        \
            printf("\n");                               \
            exit(1);                                    \
        }                                               \
    } while (0)
