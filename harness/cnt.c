/* The reference counter of builds without atomics (CROARING_ATOMIC_IMPL_NONE), which single-threaded users may choose. */
#define CROARING_ATOMIC_IMPL 1
#include <roaring/portability.h>
#define SYM_NO_HOOK
#include "sym.h"
#undef ENTRY
void cnt_none(void) {
    uint32_t v = SYM32("v", 1, 0xfffffffe); croaring_refcount_t c = v;
    CHECK(croaring_refcount_get(&c) == v, "the counter reads back");
    croaring_refcount_inc(&c);
    CHECK(croaring_refcount_get(&c) == v + 1, "a new reference counts one more");
    CHECK(!croaring_refcount_dec(&c), "dropping one of several references is not dropping the last");
    bool last = croaring_refcount_dec(&c);
    CHECK(last == (v == 1), "dropping the last reference, and only that, says so");
    CHECK(croaring_refcount_get(&c) == v - 1, "a dropped reference counts one less");
    OBS("last", last);
}
