#if defined(__riscv)
struct riscv_hwprobe { long long key; unsigned long long value; };
#define RISCV_HWPROBE_KEY_IMA_EXT_0 4
#define RISCV_HWPROBE_IMA_V (1<<2)
#ifndef __NR_riscv_hwprobe
#define __NR_riscv_hwprobe 258
#endif
#endif
