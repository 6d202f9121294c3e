// Stand-in for the pseudo random generator: every generator object is an
// independent source of uniform field elements (assumption of C13, C31, C33;
// the generator itself is the subject of C17).  A copied generator continues
// with the same values, a seeded one depends on seed and position only.
#include <cstring>
#include <stdexcept>
#include "scl/prg.h"
namespace fs { void draw(unsigned char* dst, const unsigned char* seed, long block, std::size_t word, std::size_t n); }
static std::uint64_t next_instance = 0;
scl::PRG::PRG() {
  std::memcpy(mSeed, "VERIFPRG", 8);
  std::uint64_t id = ++next_instance;
  std::memcpy(mSeed + 8, &id, 8);
}
scl::PRG::PRG(const unsigned char* seed) { std::memcpy(mSeed, seed, SeedSize()); }
void scl::PRG::Init() {}
void scl::PRG::Update() { mCounter += 1; }
void scl::PRG::Reset() { mCounter = PRG_INITIAL_COUNTER; }
void scl::PRG::Next(unsigned char* dest, std::size_t nbytes) {
  std::size_t off = 0;
  while (off < nbytes) {
    for (std::size_t w = 0; w < 2 && off < nbytes; w++) {
      std::size_t n = nbytes - off < 8 ? nbytes - off : 8;
      fs::draw(dest + off, mSeed, mCounter, w, n);
      off += n;
    }
    Update();
  }
}
