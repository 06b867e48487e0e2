/* <cpuid.h> with a processor the harness chooses */
#include_next <cpuid.h>
#ifdef __cplusplus
extern "C" {
#endif
int verif_get_cpuid(unsigned leaf, unsigned sub, unsigned* a, unsigned* b, unsigned* c, unsigned* d);
unsigned verif_cpuid_max(unsigned ext);
void verif_cpuid_raw(unsigned leaf, unsigned sub, unsigned* r);
#ifdef __cplusplus
}
#endif
#define __get_cpuid(l, a, b, c, d) verif_get_cpuid(l, 0, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) verif_get_cpuid(l, s, a, b, c, d)
#define __get_cpuid_max(e, s) verif_cpuid_max(e)
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) do { unsigned r_[4]; verif_cpuid_raw(l, 0, r_); a = r_[0]; b = r_[1]; c = r_[2]; d = r_[3]; } while (0)
#define __cpuid_count(l, s, a, b, c, d) do { unsigned r_[4]; verif_cpuid_raw(l, s, r_); a = r_[0]; b = r_[1]; c = r_[2]; d = r_[3]; } while (0)
