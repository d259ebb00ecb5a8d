/* C13: storage number, tariff, device, function for N DIFEs. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 dif, d[10]; u8 st; u32 sti; u8 other[4]; };
#define VP_STR_MAX 40
#include "vp_input.h"
int main(void)
{
    VP_INPUT;
    static mbus_data_record rec;
    mbus_data_record *r = &rec;
    r->drh.dib.dif = IN.dif;
    r->drh.dib.ndife = N;
    for (int i = 0; i < 10; i++) r->drh.dib.dife[i] = IN.d[i];
    r->drh.vib.vif = IN.other[0]; r->drh.vib.nvife = IN.other[1] % 11; r->data_len = IN.other[2]; r->data[0] = IN.other[3];
    u64 st = (IN.dif >> 6) & 1, ta = 0, de = 0;
    for (int i = 0; i < N; i++) {
        st |= (u64)(IN.d[i] & 15) << (1 + 4 * i);
        ta |= (u64)((IN.d[i] >> 4) & 3) << (2 * i);
        de |= (u64)((IN.d[i] >> 6) & 1) << i;
    }
    VP_ASSERT(mbus_data_record_storage_number(r) == (long)st, "storage number");
    VP_ASSERT(mbus_data_record_tariff(r) == (N ? (long)ta : -1), "tariff");
    VP_ASSERT(mbus_data_record_device(r) == (N ? (int)de : -1), "device");
    const char *f = mbus_data_record_function(r);
    static const char *const name[4] = { "Instantaneous value", "Maximum value", "Minimum value", "Value during error state" };
    VP_ASSERT(f != NULL && strcmp(f, name[(IN.dif >> 4) & 3]) == 0, "function text");
    VP_ASSERT(mbus_data_record_storage_number(NULL) == -1 && mbus_data_record_tariff(NULL) == -1 && mbus_data_record_device(NULL) == -1 &&
              mbus_data_record_function(NULL) == NULL, "no record");
    f = mbus_data_fixed_function((int)IN.sti);
    VP_ASSERT(f != NULL && strcmp(f, (IN.sti & 0x40) ? "Stored value" : "Actual value") == 0, "stored or actual counter");
    VP_REACH("end");
    return 0;
}
