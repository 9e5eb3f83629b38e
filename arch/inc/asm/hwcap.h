#if defined(__aarch64__)
#define HWCAP_ASIMD (1<<1)
#define HWCAP_PMULL (1<<4)
#define HWCAP_CRC32 (1<<7)
#endif
