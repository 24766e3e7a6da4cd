/* libc functions the library uses that the executor does not model itself */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    uint8_t *b = (uint8_t *)base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            uint8_t *x = b + (j - 1) * sz, *y = b + j * sz;
            int c = cmp(x, y) > 0;
            if (sz == 2) {
                uint16_t p = *(uint16_t *)x, q = *(uint16_t *)y;
                *(uint16_t *)x = c ? q : p; *(uint16_t *)y = c ? p : q;
            } else
                for (size_t k = 0; k < sz; k++) { uint8_t p = x[k], q = y[k]; x[k] = c ? q : p; y[k] = c ? p : q; }
        }
}
