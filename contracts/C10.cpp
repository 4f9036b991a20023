// C10: text made usable in MQTT topics
#include "vf.h"
#include "common_utils.cpp"
// specification, character by character
static const char* Spec(char c)
{
    switch (c) {
        case '\'':
        case '"':
        case '/':
            return "|";
        case '+':
            return "_plus_";
        case '$':
        case '#':
            return "_";
    }
    return nullptr;
}
static const size_t N = size_t(1) << 30;
VF_HARNESS(convert)
{
    std::string s = vf_str(__vf_size(N));
    __vf_unroll(0);
    std::string d = util::ConvertToValidMqttTopicString(s);
    size_t pos = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        const char* r = Spec(c);
        if (r == nullptr) {
            VF_ASSERT(pos < d.size() && d[pos] == c, "an allowed character is kept");
            ++pos;
        } else if (c == '+') {
            VF_ASSERT(pos + 6 <= d.size(), "a plus becomes _plus_");
            VF_ASSERT(d[pos] == '_' && d[pos + 1] == 'p' && d[pos + 2] == 'l' && d[pos + 3] == 'u' && d[pos + 4] == 's' && d[pos + 5] == '_', "a plus becomes _plus_");
            pos += 6;
        } else {
            VF_ASSERT(pos < d.size() && d[pos] == r[0], "a forbidden character is replaced");
            ++pos;
        }
    }
    VF_ASSERT(pos == d.size(), "nothing else is emitted");
    __vf_cover("converted");
}
VF_HARNESS(valid)
{
    std::string s = vf_str(__vf_size(N));
    __vf_unroll(0);
    bool v = util::IsValidMqttTopicString(s);
    bool ref = true;
    for (size_t i = 0; i < s.size() && ref; ++i)
        ref = Spec(s[i]) == nullptr;
    VF_ASSERT(v == ref, "valid: no forbidden character");
    __vf_cover("checked");
}
// a converted string is valid (with convert: for each replacement)
VF_HARNESS(replacements)
{
    char c = char(__vf_u8());
    std::string s(1, c);
    VF_ASSERT(util::IsValidMqttTopicString(util::ConvertToValidMqttTopicString(s)), "the result is valid");
    VF_ASSERT(util::IsValidMqttTopicString(s) == (Spec(c) == nullptr), "exactly the forbidden characters are refused");
    if (Spec(c) == nullptr)
        VF_ASSERT(util::ConvertToValidMqttTopicString(s) == s, "a valid string is unchanged");
    __vf_cover("one character");
}
