// one of several translation units of a program that uses every header
#define JOIN_(a, b) a##b
#define JOIN(a, b) JOIN_(a, b)
#define all_texts JOIN(all_texts_, UNIT)
#define all_forms JOIN(all_forms_, UNIT)
#define all_appends JOIN(all_appends_, UNIT)
#define all_octets JOIN(all_octets_, UNIT)
#define all_steps JOIN(all_steps_, UNIT)
#define all_lookups JOIN(all_lookups_, UNIT)
#define all_octet_facts JOIN(all_octet_facts_, UNIT)
#define all_codepoints JOIN(all_codepoints_, UNIT)
#define all_versions JOIN(all_versions_, UNIT)
#include "all.cpp"
