// Fault injection at the netCDF boundary: the call number drv_fail_after fails; every call is logged to $DRV_NCLOG.
#include <netcdf.h>
#include <cstdio>
#include <cstdlib>
#include <string>
extern int drv_fail_after, drv_calls, drv_fail_code;
static bool hit(const char* nm, const char* what = "") {
  const char* p = getenv("DRV_NCLOG");
  bool f = drv_fail_after >= 0 && drv_calls == drv_fail_after;
  drv_calls++;
  if (p) { FILE* o = fopen(p, "a"); if (o) { fprintf(o, "%d %s %s%s\n", drv_fail_after, nm, what, f ? " FAIL" : ""); fclose(o); } }
  return f;
}
#define ERR drv_fail_code
#define W(nm, params, args) extern "C" int __real_##nm params; extern "C" int __wrap_##nm params { return hit(#nm) ? ERR : __real_##nm args; }
W(nc_open, (const char* p, int m, int* i), (p, m, i))
W(nc_create, (const char* p, int m, int* i), (p, m, i))
W(nc_inq, (int n, int* a, int* b, int* c, int* d), (n, a, b, c, d))
W(nc_inq_dimid, (int n, const char* s, int* a), (n, s, a))
W(nc_inq_dimlen, (int n, int d, size_t* a), (n, d, a))
extern "C" int __real_nc_inq_varid(int, const char*, int*);
extern "C" int __wrap_nc_inq_varid(int n, const char* s, int* a) { return hit("nc_inq_varid", s) ? ERR : __real_nc_inq_varid(n, s, a); }
W(nc_get_var_int, (int n, int v, int* a), (n, v, a))
W(nc_get_var_double, (int n, int v, double* a), (n, v, a))
W(nc_def_dim, (int n, const char* s, size_t l, int* a), (n, s, l, a))
W(nc_def_var, (int n, const char* s, nc_type t, int k, const int* d, int* a), (n, s, t, k, d, a))
W(nc_put_att_text, (int n, int v, const char* s, size_t l, const char* t), (n, v, s, l, t))
W(nc_enddef, (int n), (n))
W(nc_put_var_int, (int n, int v, const int* a), (n, v, a))
W(nc_put_var_double, (int n, int v, const double* a), (n, v, a))
W(nc_put_var_text, (int n, int v, const char* a), (n, v, a))
extern "C" int __real_nc_close(int);
extern "C" int __wrap_nc_close(int n) { bool f = hit("nc_close"); int r = __real_nc_close(n); return f ? ERR : r; }
