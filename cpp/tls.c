/* LD_PRELOAD for hibp-download: sends its connections to 127.0.0.1:$H2_PORT and makes it trust the authority in $H2_CA,
   whatever host and port they are for. All other settings, the verification of certificates among them, stay its own. */
#define _GNU_SOURCE
#include <curl/curl.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#undef curl_easy_setopt

static void redirect(CURL* easy) {
  static struct curl_slist* to = NULL;
  CURLcode (*set)(CURL*, CURLoption, ...) = dlsym(RTLD_DEFAULT, "curl_easy_setopt");
  const char* port = getenv("H2_PORT");
  if (!port || !set) return;
  if (!to) {
    struct curl_slist* (*append)(struct curl_slist*, const char*) = dlsym(RTLD_DEFAULT, "curl_slist_append");
    char b[64];
    snprintf(b, sizeof b, "::127.0.0.1:%s", port);
    to = append(NULL, b);
  }
  set(easy, CURLOPT_CONNECT_TO, to);
  set(easy, CURLOPT_CAINFO, getenv("H2_CA"));
  set(easy, CURLOPT_CAPATH, NULL);
}

CURLMcode curl_multi_add_handle(CURLM* multi, CURL* easy) {
  CURLMcode (*real)(CURLM*, CURL*) = dlsym(RTLD_NEXT, "curl_multi_add_handle");
  redirect(easy);
  return real(multi, easy);
}

CURLcode curl_easy_perform(CURL* easy) {
  CURLcode (*real)(CURL*) = dlsym(RTLD_NEXT, "curl_easy_perform");
  redirect(easy);
  return real(easy);
}
