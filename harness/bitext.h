/* cbmc's SMT back end cannot convert a bit-field to floating point, which is
 * how BITS_SIGN_EXTEND_32 is written. Goals that use that back end read the
 * macro as the shift form below; the goal "sign-extension" proves, on the
 * library's own macro, that both are the same for every width and argument. */
#ifndef BITEXT_H
#define BITEXT_H
#include <swiftnav/bits.h>
#define VP_SIGN_EXTEND(n, arg) ((s32)((u32)(arg) << (32 - (n))) >> (32 - (n)))
#ifndef VP_REAL_SIGN_EXTEND
#undef BITS_SIGN_EXTEND_32
#define BITS_SIGN_EXTEND_32(n, arg) VP_SIGN_EXTEND(n, arg)
#endif
#endif
