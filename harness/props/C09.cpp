// Magma CFB source.
#include "../gens.h"
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
using namespace gen;

const char *const pbt::property_id = "C09";
const char *const pbt::property_rule =
	"key, table, key form, two register values, ciphertext (arbitrary, or made by the sink from generated plaintext; 0 bytes to 64 KiB, all tail lengths) and a sequence of "
	"read sizes (0, 1, odd, block, unlimited, past the end) are generated; every read must return exactly the next bytes of the reference decryption. Non-trivial: more than "
	"one block of data.";
static constexpr int REGS = 2;
static SP<goost::Sink> make_sink(const SP<goost::Sink> &s, const SP<gm::Key> &k, const std::vector<uint64_t> &r)
{
	return std::make_shared<gm::CFBSink>(s, k, r[0], r[1]);
}
static SP<goost::Source> make_source(const SP<goost::Source> &s, const SP<gm::Key> &k, const std::vector<uint64_t> &r)
{
	return std::make_shared<gm::CFBSource>(s, k, r[0], r[1]);
}
#include "cfb_source.inc"
