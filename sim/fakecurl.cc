// The part of libcurl's easy API that a transport needs, with libcurl's documented behaviour, on a simulated network.
// Compiled like library code: its accesses to the caller's memory are scheduling points and are checked.
#include <curl/curl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>

#include <new>

#include "http.h"

#undef curl_easy_setopt
#undef curl_easy_getinfo

// the simulated heap, so that leaks and stale accesses show
static void* sim_alloc(size_t n) { return ::operator new(n); }
static void sim_release(void* p) { ::operator delete(p); }

struct FakeCurl {
  unsigned magic;
  char* url;
  char* method;
  char* copied;
  const char* post;
  long long post_size;
  int post_flag, get_flag;
  struct curl_slist* headers;
  size_t (*write)(char*, size_t, size_t, void*);
  void* write_data;
  size_t (*read)(char*, size_t, size_t, void*);
  void* read_data;
  long fail_on_error, header, nobody;
  long code;
  char* error_buffer;
};
static const unsigned kMagic = 0xC0817E57;

static char* dup(const char* s) {
  if (!s) return nullptr;
  size_t n = 0;
  while (s[n]) n++;
  char* d = (char*)sim_alloc(n + 1);
  for (size_t i = 0; i <= n; i++) d[i] = s[i];
  return d;
}
static FakeCurl* handle(CURL* c) {
  FakeCurl* f = (FakeCurl*)c;
  if (!f) return nullptr;
  if (f->magic != kMagic) {
    sim_http_misuse("a curl handle was used that is not alive");
    return nullptr;
  }
  return f;
}

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
char* curl_version(void) { return (char*)"libcurl/sim"; }
const char* curl_easy_strerror(CURLcode c) { return c == CURLE_OK ? "No error" : "simulated transfer error"; }
void curl_free(void* p) { sim_release(p); }

struct curl_slist* curl_slist_append(struct curl_slist* l, const char* s) {
  struct curl_slist* n = (struct curl_slist*)sim_alloc(sizeof *n);
  n->data = dup(s);
  n->next = nullptr;
  if (!l) return n;
  struct curl_slist* e = l;
  while (e->next) e = e->next;
  e->next = n;
  return l;
}
void curl_slist_free_all(struct curl_slist* l) {
  while (l) {
    struct curl_slist* n = l->next;
    sim_release(l->data);
    sim_release(l);
    l = n;
  }
}

static void reset(FakeCurl* f) {
  sim_release(f->url);
  sim_release(f->method);
  sim_release(f->copied);
  memset(f, 0, sizeof *f);
  f->magic = kMagic;
  f->post_size = -1;
}
CURL* curl_easy_init(void) {
  if (sim_http_init_fails()) return nullptr;
  FakeCurl* f = (FakeCurl*)sim_alloc(sizeof *f);
  memset(f, 0, sizeof *f);
  reset(f);
  return (CURL*)f;
}
void curl_easy_reset(CURL* c) {
  FakeCurl* f = handle(c);
  if (f) reset(f);
}
void curl_easy_cleanup(CURL* c) {
  FakeCurl* f = handle(c);
  if (!f) return;
  reset(f);
  f->magic = 0;
  sim_release(f);
}

CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  FakeCurl* f = handle(c);
  if (!f) return CURLE_BAD_FUNCTION_ARGUMENT;
  va_list ap;
  va_start(ap, o);
  long l = 0;
  void* p = nullptr;
  curl_off_t off = 0;
  if (o < CURLOPTTYPE_OBJECTPOINT) l = va_arg(ap, long);
  else if (o < CURLOPTTYPE_OFF_T) p = va_arg(ap, void*);
  else off = va_arg(ap, curl_off_t);
  va_end(ap);
  switch ((int)o) {
    case CURLOPT_URL: sim_release(f->url); f->url = dup((const char*)p); break;
    case CURLOPT_CUSTOMREQUEST: sim_release(f->method); f->method = dup((const char*)p); break;
    case CURLOPT_HTTPHEADER: f->headers = (struct curl_slist*)p; break;
    case CURLOPT_POST: f->post_flag = l != 0; break;
    case CURLOPT_HTTPGET: f->get_flag = l != 0; f->post_flag = 0; break;
    case CURLOPT_NOBODY: f->nobody = l; break;
    case CURLOPT_HEADER: f->header = l; break;
    case CURLOPT_FAILONERROR: f->fail_on_error = l; break;
    case CURLOPT_POSTFIELDSIZE: f->post_size = l; break;
    case CURLOPT_POSTFIELDSIZE_LARGE: f->post_size = off; break;
    case CURLOPT_POSTFIELDS: f->post = (const char*)p; f->post_flag = 1; break;
    case CURLOPT_COPYPOSTFIELDS: {
      sim_release(f->copied);
      f->copied = nullptr;
      f->post = nullptr;
      f->post_flag = 1;
      if (p) {
        size_t n = f->post_size < 0 ? strlen((const char*)p) : (size_t)f->post_size;
        f->copied = (char*)sim_alloc(n + 1);
        for (size_t i = 0; i < n; i++) f->copied[i] = ((const char*)p)[i];
        f->copied[n] = 0;
        f->post = f->copied;
      }
      break;
    }
    case CURLOPT_WRITEFUNCTION: f->write = (size_t(*)(char*, size_t, size_t, void*))p; break;
    case CURLOPT_WRITEDATA: f->write_data = p; break;
    case CURLOPT_READFUNCTION: f->read = (size_t(*)(char*, size_t, size_t, void*))p; break;
    case CURLOPT_READDATA: f->read_data = p; break;
    case CURLOPT_ERRORBUFFER: f->error_buffer = (char*)p; break;
    default: break;  // timeouts, TLS settings and the like do not matter here
  }
  return CURLE_OK;
}

static CURLcode give(FakeCurl* f, const char* d, size_t n) {
  while (n) {
    size_t k = n > 16384 ? 16384 : n;
    if (f->write) {
      char* buf = (char*)sim_alloc(k);
      memcpy(buf, d, k);
      size_t r = f->write(buf, 1, k, f->write_data);
      sim_release(buf);
      if (r != k) return CURLE_WRITE_ERROR;
    }
    d += k;
    n -= k;
  }
  return CURLE_OK;
}

CURLcode curl_easy_perform(CURL* c) {
  FakeCurl* f = handle(c);
  if (!f) return CURLE_BAD_FUNCTION_ARGUMENT;
  f->code = 0;
  if (!f->url) return CURLE_URL_MALFORMAT;
  SimHttp h;
  sim_http_begin(&h);
  for (size_t i = 0; f->url[i]; i++) sim_http_put(&h, 0, f->url[i]);
  const char* m = f->method ? f->method : f->post_flag ? "POST" : f->nobody ? "HEAD" : "GET";
  for (size_t i = 0; m[i]; i++) sim_http_put(&h, 1, m[i]);
  for (struct curl_slist* s = f->headers; s; s = s->next) {
    for (size_t i = 0; s->data[i]; i++) sim_http_put(&h, 2, s->data[i]);
    sim_http_put(&h, 2, '\n');
  }
  if (f->post) {
    if (f->post_size < 0)
      for (size_t i = 0; f->post[i]; i++) sim_http_put(&h, 3, f->post[i]);
    else
      for (long long i = 0; i < f->post_size; i++) sim_http_put(&h, 3, f->post[i]);
  } else if (f->read && f->post_flag) {
    char* buf = (char*)sim_alloc(4096);
    for (;;) {
      size_t n = f->read(buf, 1, 4096, f->read_data);
      if (n == 0 || n > 4096) break;
      for (size_t i = 0; i < n; i++) sim_http_put(&h, 3, buf[i]);
    }
    sim_release(buf);
  }
  sim_http_send(&h);  // takes simulated time
  f->code = h.code;
  CURLcode r = (CURLcode)h.error;
  if (h.code >= 400 && f->fail_on_error) r = CURLE_HTTP_RETURNED_ERROR;
  else if (h.code) {
    static const char head[] = "HTTP/1.1 200 OK\r\nContent-Type: application/x-protobuf\r\n\r\n";
    if (f->header) give(f, head, sizeof head - 1);
    for (int i = 0; i < h.chunks; i++) {
      size_t n;
      const char* d = sim_http_chunk(&h, i, &n);  // may take simulated time
      CURLcode w = f->nobody ? CURLE_OK : give(f, d, n);
      if (w != CURLE_OK) { r = w; break; }
    }
  }
  sim_http_end(&h);
  if (f->error_buffer && r != CURLE_OK) strcpy(f->error_buffer, "simulated transfer error");
  return r;
}

CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  FakeCurl* f = handle(c);
  if (!f) return CURLE_BAD_FUNCTION_ARGUMENT;
  va_list ap;
  va_start(ap, i);
  void* p = va_arg(ap, void*);
  va_end(ap);
  if (i == CURLINFO_RESPONSE_CODE) *(long*)p = f->code;
  else if ((i & CURLINFO_TYPEMASK) == CURLINFO_LONG) *(long*)p = 0;
  else if ((i & CURLINFO_TYPEMASK) == CURLINFO_DOUBLE) *(double*)p = 0;
  else *(void**)p = nullptr;
  return CURLE_OK;
}
}  // extern "C"
