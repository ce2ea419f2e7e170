// The staging queue's operations, compiled with every memory access instrumented (see h_sb.cc).
#include "TestUtil.h"
#include "RuntimeLogger.h"
#include "h_sb.h"
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;

size_t sbSize() { return NanoLogConfig::STAGING_BUFFER_SIZE; }
size_t sbBytes() { return sizeof(SB); }
void *sbNew(void *where, uint32_t id) { return new (where) SB(id); }
char *sbStorage(void *s) { return static_cast<SB *>(s)->storage; }
char *sbReserve(void *s, size_t n) { return static_cast<SB *>(s)->reserveProducerSpace(n); }
char *sbTry(void *s, size_t n) { return static_cast<SB *>(s)->reserveSpaceInternal(n, false); }
void sbFinish(void *s, size_t n) { static_cast<SB *>(s)->finishReservation(n); }
char *sbPeek(void *s, uint64_t *n) { return static_cast<SB *>(s)->peek(n); }
void sbConsume(void *s, uint64_t n) { static_cast<SB *>(s)->consume(n); }
bool sbCanDelete(void *s) { return static_cast<SB *>(s)->checkCanDelete(); }
uint32_t sbId(void *s) { return static_cast<SB *>(s)->getId(); }
// What happens when the owning thread ends.
void sbOwnerExit(void *s) {
    RuntimeLogger::stagingBuffer = static_cast<SB *>(s);
    { RuntimeLogger::StagingBufferDestroyer d; }
    sbOwnerDetached(RuntimeLogger::stagingBuffer == nullptr);
}
