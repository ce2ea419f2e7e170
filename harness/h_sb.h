#pragma once
#include <cstdint>
#include <cstddef>
size_t sbSize(); size_t sbBytes();
void *sbNew(void *where, uint32_t id);
char *sbStorage(void *s);
char *sbReserve(void *s, size_t n);
char *sbTry(void *s, size_t n);
void sbFinish(void *s, size_t n);
char *sbPeek(void *s, uint64_t *n);
void sbConsume(void *s, uint64_t n);
bool sbCanDelete(void *s);
uint32_t sbId(void *s);
void sbOwnerExit(void *s);
void sbOwnerDetached(bool);
