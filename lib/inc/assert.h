/* analysis stand-in: same meaning as the libc macro (the repository's build leaves assertions on) */
#undef assert
extern void vf_assert_fail(void) __attribute__((noreturn));
#define assert(e) ((e) ? (void)0 : vf_assert_fail())
