/* Analysis driver (never linked or run): instantiates the C macros. */
#include <stdint.h>
#include <stdbool.h>
#include <hogl/c-api/area.h>
#include <hogl/c-api/args.h>
#include <hogl/c-api/post.h>

void cdrv_bool(hogl_area_t a, unsigned int s, bool v) { hogl_post(a, s, v); }
void cdrv_char(hogl_area_t a, unsigned int s, char v) { hogl_post(a, s, v); }
void cdrv_u8(hogl_area_t a, unsigned int s, uint8_t v) { hogl_post(a, s, v); }
void cdrv_s8(hogl_area_t a, unsigned int s, int8_t v) { hogl_post(a, s, v); }
void cdrv_u16(hogl_area_t a, unsigned int s, uint16_t v) { hogl_post(a, s, v); }
void cdrv_s16(hogl_area_t a, unsigned int s, int16_t v) { hogl_post(a, s, v); }
void cdrv_u32(hogl_area_t a, unsigned int s, uint32_t v) { hogl_post(a, s, v); }
void cdrv_s32(hogl_area_t a, unsigned int s, int32_t v) { hogl_post(a, s, v); }
void cdrv_u64(hogl_area_t a, unsigned int s, uint64_t v) { hogl_post(a, s, v); }
void cdrv_s64(hogl_area_t a, unsigned int s, int64_t v) { hogl_post(a, s, v); }
void cdrv_ull(hogl_area_t a, unsigned int s, unsigned long long v) { hogl_post(a, s, v); }
void cdrv_sll(hogl_area_t a, unsigned int s, long long v) { hogl_post(a, s, v); }
void cdrv_flt(hogl_area_t a, unsigned int s, float v) { hogl_post(a, s, v); }
void cdrv_dbl(hogl_area_t a, unsigned int s, double v) { hogl_post(a, s, v); }
void cdrv_ptr(hogl_area_t a, unsigned int s, void * v) { hogl_post(a, s, v); }
void cdrv_cstr(hogl_area_t a, unsigned int s, const char * v) { hogl_post(a, s, v); }
void cdrv_mstr(hogl_area_t a, unsigned int s, char * v) { hogl_post(a, s, v); }
void cdrv_arr(hogl_area_t a, unsigned int s) { hogl_post(a, s, "lit"); }
void cdrv_n1(hogl_area_t a, unsigned int s, uint64_t v0) { hogl_post(a, s, v0); }
void cdrv_n2(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1) { hogl_post(a, s, v0, v1); }
void cdrv_n3(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2) { hogl_post(a, s, v0, v1, v2); }
void cdrv_n4(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3) { hogl_post(a, s, v0, v1, v2, v3); }
void cdrv_n5(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4) { hogl_post(a, s, v0, v1, v2, v3, v4); }
void cdrv_n6(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5) { hogl_post(a, s, v0, v1, v2, v3, v4, v5); }
void cdrv_n7(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6); }
void cdrv_n8(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7); }
void cdrv_n9(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8); }
void cdrv_n10(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
void cdrv_n11(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9, uint64_t v10) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10); }
void cdrv_n12(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9, uint64_t v10, uint64_t v11) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); }
void cdrv_n13(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9, uint64_t v10, uint64_t v11, uint64_t v12) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
void cdrv_n14(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9, uint64_t v10, uint64_t v11, uint64_t v12, uint64_t v13) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13); }
void cdrv_n15(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9, uint64_t v10, uint64_t v11, uint64_t v12, uint64_t v13, uint64_t v14) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14); }
void cdrv_n16(hogl_area_t a, unsigned int s, uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4, uint64_t v5, uint64_t v6, uint64_t v7, uint64_t v8, uint64_t v9, uint64_t v10, uint64_t v11, uint64_t v12, uint64_t v13, uint64_t v14, uint64_t v15) { hogl_post(a, s, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15); }
