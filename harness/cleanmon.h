#include <stddef.h>
typedef struct { unsigned long allocs, freed, bytes, grown, shrunk, moved, violations, dropped; int enabled, keep; size_t nkept, nrand; unsigned char kept[1 << 22], rand[1 << 16]; } cleanmon_t;
extern cleanmon_t cleanmon;
