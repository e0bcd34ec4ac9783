// Between the fake libcurl and the simulated HTTP server.
#pragma once
#include <stddef.h>
struct SimHttp {
  void* req;
  long code;
  int error;
  int chunks;
};
void sim_http_misuse(const char* what);
bool sim_http_init_fails();
void sim_http_begin(SimHttp* h);
void sim_http_put(SimHttp* h, int part, char c);
void sim_http_send(SimHttp* h);
const char* sim_http_chunk(SimHttp* h, int i, size_t* n);
void sim_http_end(SimHttp* h);
