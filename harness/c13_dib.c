/* Contracts of the storage number, tariff, device and function look-ups of a record (C13). */
#include "vp.h"
#include "mbus-protocol.h"
static mbus_data_record R;
#ifdef VP_CBMC
int vp_snprintf_any(char *d, size_t n, const char *f, ...)      /* plain texts only: obligation */
{
    size_t k;
    for (k = 0; f[k]; k++) { __CPROVER_assert(f[k] != '%', "VP:model-limit plain text"); if (k + 1 < n) d[k] = f[k]; }
    if (n) d[k < n ? k : n - 1] = 0;
    return (int)k;
}
#endif
static int eq(const char *a, const char *b) { size_t k; for (k = 0; k < 30; k++) { if (a[k] != b[k]) return 0; if (!b[k]) return 1; } return 0; }
void harness(void)
{
    size_t n, k; long st, ta; int de; const char *f; static const char *T[4] = { "Instantaneous value", "Maximum value", "Minimum value", "Value during error state" };
    vp_fill(R.drh.dib.dife, 10); R.drh.dib.dif = vp_u8(); n = vp_range(0, 10); R.drh.dib.ndife = n;
    st = (R.drh.dib.dif >> 6) & 1; ta = 0; de = 0;
    for (k = 0; k < 10; k++) if (k < n) {
        st |= (long)(R.drh.dib.dife[k] & 15) << (1 + 4 * k);
        ta |= (long)((R.drh.dib.dife[k] >> 4) & 3) << (2 * k);
        de |= ((R.drh.dib.dife[k] >> 6) & 1) << k;
    }
    VP_ASSERT(mbus_data_record_storage_number(&R) == st, "storage number");
    VP_ASSERT(mbus_data_record_tariff(&R) == (n ? ta : -1), "tariff, -1 without extension");
    VP_ASSERT(mbus_data_record_device(&R) == (n ? de : -1), "device, -1 without extension");
    f = mbus_data_record_function(&R);
    VP_ASSERT(f && eq(f, T[(R.drh.dib.dif >> 4) & 3]), "function text");
    VP_ASSERT(mbus_data_record_storage_number(NULL) == -1 && mbus_data_record_tariff(NULL) == -1 && mbus_data_record_device(NULL) == -1 && mbus_data_record_function(NULL) == NULL, "null record");
    VP_COVER(n == 10, "ten extensions"); VP_COVER(n == 0, "none");
}
