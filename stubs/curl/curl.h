// Stand-in for libcurl: downloads go through IHttpClient of the harness, this is only compiled
#pragma once
typedef void CURL;
typedef int CURLcode;
enum { CURLE_OK = 0, CURLE_FAILED = 1, CURLOPT_URL = 1, CURLOPT_WRITEFUNCTION, CURLOPT_WRITEDATA, CURLOPT_FOLLOWLOCATION, CURLOPT_TIMEOUT, CURLOPT_CONNECTTIMEOUT, CURLINFO_RESPONSE_CODE, CURL_GLOBAL_DEFAULT };
inline CURL* curl_easy_init()
{
    return nullptr;
}
inline void curl_easy_cleanup(CURL*)
{}
template<class T> inline int curl_easy_setopt(CURL*, int, T)
{
    return CURLE_OK;
}
inline CURLcode curl_easy_perform(CURL*)
{
    return CURLE_FAILED;
}
inline const char* curl_easy_strerror(CURLcode)
{
    return "no network";
}
template<class T> inline int curl_easy_getinfo(CURL*, int, T)
{
    return CURLE_OK;
}
inline int curl_global_init(int)
{
    return CURLE_OK;
}
inline void curl_global_cleanup()
{}
