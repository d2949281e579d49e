// C string searching (separate file: <cstring> overloads these in C++)
typedef unsigned long size_t;
long __isoc23_strtol(const char*, char**, int);
unsigned long __isoc23_strtoul(const char*, char**, int);
double strtod(const char*, char**);
int strncmp(const char*, const char*, size_t);
size_t strlen(const char*);
void* memchr(const void* p, int c, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        if (((const unsigned char*)p)[i] == (unsigned char)c)
            return (char*)p + i;
    return 0;
}
void* memrchr(const void* p, int c, size_t n)
{
    for (size_t i = n; i-- > 0;)
        if (((const unsigned char*)p)[i] == (unsigned char)c)
            return (char*)p + i;
    return 0;
}
char* strchr(const char* p, int c)
{
    for (;; ++p) {
        if (*p == (char)c)
            return (char*)p;
        if (!*p)
            return 0;
    }
}
char* strrchr(const char* p, int c)
{
    char* r = 0;
    for (;; ++p) {
        if (*p == (char)c)
            r = (char*)p;
        if (!*p)
            return r;
    }
}
char* strstr(const char* a, const char* b)
{
    size_t n = strlen(b);
    for (;; ++a) {
        if (!strncmp(a, b, n))
            return (char*)a;
        if (!*a)
            return 0;
    }
}
int atoi(const char* s)
{
    return (int)__isoc23_strtol(s, 0, 10);
}
long atol(const char* s)
{
    return __isoc23_strtol(s, 0, 10);
}
double atof(const char* s)
{
    return strtod(s, 0);
}
long strtol(const char* s, char** e, int b)
{
    return __isoc23_strtol(s, e, b);
}
long long strtoll(const char* s, char** e, int b)
{
    return __isoc23_strtol(s, e, b);
}
unsigned long strtoul(const char* s, char** e, int b)
{
    return __isoc23_strtoul(s, e, b);
}
unsigned long long strtoull(const char* s, char** e, int b)
{
    return __isoc23_strtoul(s, e, b);
}
