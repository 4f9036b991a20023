// contract of strtol for base 10: white space, optional sign, digits; the value saturates and errno says so
#ifndef VF_NATIVE
#include <cerrno>
#include <cstdlib>
extern "C" long strtol(const char* s, char** end, int) noexcept
{
    const char* begin = s;
    while (*s == ' ' || (*s >= '\t' && *s <= '\r'))
        ++s;
    bool neg = *s == '-';
    if (*s == '-' || *s == '+')
        ++s;
    const char* digits = s;
    uint64_t v = 0;
    bool over = false;
    for (; *s >= '0' && *s <= '9'; ++s) {
        uint64_t d = uint64_t(*s - '0');
        if (v > 922337203685477580u || (v == 922337203685477580u && d > (neg ? 8u : 7u)))
            over = true;
        v = v * 10 + d;
    }
    if (end)
        *end = const_cast<char*>(s == digits ? begin : s);
    if (over) {
        errno = ERANGE;
        return neg ? (-9223372036854775807L - 1) : 9223372036854775807L;
    }
    return long(neg ? 0 - v : v);
}
#endif
