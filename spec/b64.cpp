#include "common.hpp"
#include "Util/Base64.hpp"
#include <cstdint>
template void B64Converter::getBase64FromVector<double>(const std::vector<double> &, std::string &);
template void B64Converter::getBase64FromVector<float>(const std::vector<float> &, std::string &);
template void B64Converter::getBase64FromVector<int32_t>(const std::vector<int32_t> &, std::string &);
template void B64Converter::getBase64FromVector<uint8_t>(const std::vector<uint8_t> &, std::string &);
namespace spec {
typedef B64Converter B;
static const char digit[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// three bytes are one number of 24 bits, written as four digits of 6 bits
void three(const unsigned char *s, unsigned char *d) {
    const int w = s[0] * 65536 + s[1] * 256 + s[2];
    d[0] = digit[w / 262144];
    d[1] = digit[w / 4096 % 64];
    d[2] = digit[w / 64 % 64];
    d[3] = digit[w % 64];
}
void two(const unsigned char *s, unsigned char *d) {
    const int w = s[0] * 65536 + s[1] * 256;
    d[0] = digit[w / 262144];
    d[1] = digit[w / 4096 % 64];
    d[2] = digit[w / 64 % 64];
    d[3] = '=';
}
void one(const unsigned char *s, unsigned char *d) {
    const int w = s[0] * 65536;
    d[0] = digit[w / 262144];
    d[1] = digit[w / 4096 % 64];
    d[2] = '=';
    d[3] = '=';
}
int four(const unsigned char *s, unsigned char *d) {
    const unsigned char a = B::kwsysBase64DecodeTable[s[0]], b = B::kwsysBase64DecodeTable[s[1]];
    const unsigned char c = B::kwsysBase64DecodeTable[s[2]], e = B::kwsysBase64DecodeTable[s[3]];
    if (a == 255 || b == 255 || c == 255 || e == 255)
        return 0;
    d[0] = a % 64 * 4 + b / 16 % 4;
    d[1] = b % 16 * 16 + c / 4 % 16;
    d[2] = c % 4 * 64 + e % 64;
    return s[2] == '=' ? 1 : s[3] == '=' ? 2 : 3;
}
size_t encode(const unsigned char *in, size_t n, std::string &out, bool mark) {
    unsigned char b[4];
    const size_t full = n / 3;
    for (size_t t = 0; t < full; t++) {
        B::kwsysBase64_Encode3(in + 3 * t, b);
        for (int i = 0; i < 4; i++)
            out += b[i];
    }
    if (n % 3 == 2) {
        B::kwsysBase64_Encode2(in + 3 * full, b);
        for (int i = 0; i < 4; i++)
            out += b[i];
    } else if (n % 3 == 1) {
        B::kwsysBase64_Encode1(in + 3 * full, b);
        for (int i = 0; i < 4; i++)
            out += b[i];
    } else if (mark)
        out += "====";
    return 4 * full + (n % 3 || mark ? 4 : 0);
}
template <class T>
void vecText(const std::vector<T> &v, std::string &out) {
    const uint32_t bytes = v.size() * sizeof(T);
    B::kwsysBase64_Encode(reinterpret_cast<const unsigned char *>(&bytes), 4, out);
    B::kwsysBase64_Encode(reinterpret_cast<const unsigned char *>(v.data()), v.size() * sizeof(T), out);
}
template void vecText<double>(const std::vector<double> &, std::string &);
template void vecText<float>(const std::vector<float> &, std::string &);
template void vecText<int32_t>(const std::vector<int32_t> &, std::string &);
template void vecText<uint8_t>(const std::vector<uint8_t> &, std::string &);
} // namespace spec
