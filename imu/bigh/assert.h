#undef assert
#define assert(x) ((void)0)
#ifndef static_assert
#define static_assert _Static_assert
#endif
