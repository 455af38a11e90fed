// Magma CFB sink.
#include "../gens.h"
#include <goost/magma/CFBSink.h>
using namespace gen;

const char *const pbt::property_id = "C08";
const char *const pbt::property_rule =
	"key, table, key form, two register values, data (0 bytes to 64 KiB, all tail lengths) and one or two splits into writes (empty ones included) are generated; the "
	"recorded ciphertext is compared with the reference CFB of the whole data, sometimes finalizing in the middle. Non-trivial: more than one block of data.";
static constexpr int REGS = 2;
static SP<goost::Sink> make_sink(const SP<goost::Sink> &s, const SP<gm::Key> &k, const std::vector<uint64_t> &r)
{
	return std::make_shared<gm::CFBSink>(s, k, r[0], r[1]);
}
#include "cfb_sink.inc"
