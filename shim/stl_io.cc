#include "verif_ios.h"
extern "C" {
const char* verif_file_data = nullptr;
unsigned long verif_file_len = 0;
bool verif_file_ok = false;
}
namespace std { ostream cout, cerr; }
#include <string>
template class std::basic_string<char>;
