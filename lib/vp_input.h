/* After `struct IN`: the symbolic input, and the environment for this unit. */
#ifdef VP_ENC
struct IN IN;
struct IN nondet_IN(void);
#else
struct IN IN;
static void vp_load_input(void)
{
#include VP_INPUT_FILE
}
#endif
#include "vp_models.h"
#include "vp_native.h"
#include "vp_sys.h"
