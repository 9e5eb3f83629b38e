/* the hosted headers of the machine the checks run on are used for other targets too; these few differ */
#define __WORDSIZE 64
#define __WORDSIZE_TIME64_COMPAT32 0
