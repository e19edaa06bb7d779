// extern _Znwm
ptr_t p = malloc(a0); __CPROVER_assume(p != (ptr_t)0); vp_g_live++; return p;
// end
// extern _Znam
ptr_t p = malloc(a0); __CPROVER_assume(p != (ptr_t)0); vp_g_live++; return p;
// end
// extern _ZdlPv
vp_release(a0);
// end
// extern _ZdlPvm
vp_release(a0);
// end
// extern _ZdaPv
vp_release(a0);
// end
// extern malloc
ptr_t p = malloc(a0); __CPROVER_assume(p != (ptr_t)0); vp_g_live++; return p;
// end
// extern aligned_alloc
return vp_aligned(a0, a1);
// end
// extern free
vp_release(a0);
// end
// extern strlen
u64 n = 0; while (a0[n] != 0) n++; return n;
// end
// extern memcmp
for (u64 i = 0; i < a2; i++) { if (a0[i] != a1[i]) return a0[i] < a1[i] ? (u32)-1 : 1u; } return 0;
// end
// extern bcmp
for (u64 i = 0; i < a2; i++) { if (a0[i] != a1[i]) return 1u; } return 0;
// end
// extern _ZSt9terminatev
__CPROVER_assert(0, "vp:std::terminate reached"); __CPROVER_assume(0);
// end
// extern abort
__CPROVER_assert(0, "vp:abort reached"); __CPROVER_assume(0);
// end
// extern __cxa_begin_catch
return a0;
// end
// extern sinf
return __CPROVER_uninterpreted_sinf(a0);
// end
// extern sin
return __CPROVER_uninterpreted_sind(a0);
// end
// extern cosf
return __CPROVER_uninterpreted_cosf(a0);
// end
// extern cos
return __CPROVER_uninterpreted_cosd(a0);
// end
// extern tanf
return __CPROVER_uninterpreted_tanf(a0);
// end
// extern tan
return __CPROVER_uninterpreted_tand(a0);
// end
// extern asinf
return __CPROVER_uninterpreted_asinf(a0);
// end
// extern asin
return __CPROVER_uninterpreted_asind(a0);
// end
// extern acosf
return __CPROVER_uninterpreted_acosf(a0);
// end
// extern acos
return __CPROVER_uninterpreted_acosd(a0);
// end
// extern atanf
return __CPROVER_uninterpreted_atanf(a0);
// end
// extern atan
return __CPROVER_uninterpreted_atand(a0);
// end
// extern expf
return __CPROVER_uninterpreted_expf(a0);
// end
// extern exp
return __CPROVER_uninterpreted_expd(a0);
// end
// extern logf
return __CPROVER_uninterpreted_logf(a0);
// end
// extern log
return __CPROVER_uninterpreted_logd(a0);
// end
// extern cbrtf
return __CPROVER_uninterpreted_cbrtf(a0);
// end
// extern cbrt
return __CPROVER_uninterpreted_cbrtd(a0);
// end
// extern atan2f
return __CPROVER_uninterpreted_atan2f(a0, a1);
// end
// extern atan2
return __CPROVER_uninterpreted_atan2d(a0, a1);
// end
// extern powf
return __CPROVER_uninterpreted_powf(a0, a1);
// end
// extern pow
return __CPROVER_uninterpreted_powd(a0, a1);
// end
// extern fmodf
return __CPROVER_uninterpreted_fmodf(a0, a1);
// end
// extern fmod
return __CPROVER_uninterpreted_fmodd(a0, a1);
// end
// extern sqrtf
return vp_sqrt_float(a0);
// end
// extern sqrt
return vp_sqrt_double(a0);
// end
// extern floorf
return vp_floor_float(a0);
// end
// extern ceilf
return vp_ceil_float(a0);
// end
// extern floor
return vp_floor_double(a0);
// end
// extern ceil
return vp_ceil_double(a0);
// end
// extern wmemset
for (u64 i = 0; i < a2; i++) ((u32*)a0)[i] = a1; return a0;
// end
// extern vp_mod
vp_mp[vp_mk & 3] = a0; vp_mn[vp_mk & 3] = a1; vp_mk++;
// end
// extern vp_fold32
return __CPROVER_uninterpreted_fold32(a0);
// end
// extern vp_fold64
return __CPROVER_uninterpreted_fold64(a0);
// end
// extern vp_fold128l
return __CPROVER_uninterpreted_fold128l(a0);
// end
// extern vp_fold128h
return __CPROVER_uninterpreted_fold128h(a0);
// end
// extern wmemcmp
for (u64 i = 0; i < a2; i++) { u32 x = ((u32*)a0)[i], y = ((u32*)a1)[i]; if (x != y) return (x ^ 0x80000000u) < (y ^ 0x80000000u) ? (u32)-1 : 1u; } return 0;
// end
// extern wmemcpy
for (u64 i = 0; i < a2; i++) ((u32*)a0)[i] = ((u32*)a1)[i]; return a0;
// end
// extern wmemmove
if ((u64)a0 <= (u64)a1) for (u64 i = 0; i < a2; i++) ((u32*)a0)[i] = ((u32*)a1)[i]; else for (u64 i = a2; i-- > 0;) ((u32*)a0)[i] = ((u32*)a1)[i]; return a0;
// end
// extern wcslen
u64 n = 0; while (((u32*)a0)[n]) n++; return n;
// end
