// The same as an addon of node: call(name, bytes, resolution) -> {rc, ret, need, out}
#include <node_api.h>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" int front_call(const char*, const uint8_t*, uint32_t, float, uint32_t*, uint64_t*, uint8_t**);
extern "C" void front_free(uint8_t*);
static napi_value call(napi_env env, napi_callback_info info) {
  size_t argc = 3;
  napi_value a[3];
  napi_get_cb_info(env, info, &argc, a, nullptr, nullptr);
  char fn[128];
  size_t fl;
  napi_get_value_string_utf8(env, a[0], fn, sizeof fn, &fl);
  napi_typedarray_type t;
  size_t n, off;
  void* p;
  napi_value ab;
  napi_get_typedarray_info(env, a[1], &t, &n, &p, &ab, &off);
  double res;
  napi_get_value_double(env, a[2], &res);
  uint32_t ret = 0;
  uint64_t need = 0;
  uint8_t* out = nullptr;
  int rc = front_call(fn, (const uint8_t*)p, (uint32_t)n, (float)res, &ret, &need, &out);
  napi_value r, v;
  napi_create_object(env, &r);
  napi_create_int32(env, rc, &v); napi_set_named_property(env, r, "rc", v);
  napi_create_uint32(env, ret, &v); napi_set_named_property(env, r, "ret", v);
  napi_create_double(env, (double)need, &v); napi_set_named_property(env, r, "need", v);
  void* bp;
  size_t copy = out ? need : 0;
  napi_create_arraybuffer(env, copy, &bp, &ab);
  if (copy) memcpy(bp, out, copy);
  napi_create_typedarray(env, napi_uint8_array, copy, ab, 0, &v);
  napi_set_named_property(env, r, "out", v);
  if (out) front_free(out);
  return r;
}
NAPI_MODULE_INIT() {
  napi_value f;
  napi_create_function(env, "call", NAPI_AUTO_LENGTH, call, nullptr, &f);
  napi_set_named_property(env, exports, "call", f);
  return exports;
}
