// GOST 28147-89 CFB sink.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
using namespace gen;

const char *const pbt::property_id = "C10";
const char *const pbt::property_rule =
	"key, table, key form, synchronisation value, data (0 bytes to 64 KiB, all tail lengths) and one or two splits into writes (empty ones included) are generated; the "
	"recorded ciphertext is compared with the reference cipher-feedback mode, sometimes finalizing in the middle. Non-trivial: more than one block of data.";
static constexpr int REGS = 1;
static SP<goost::Sink> make_sink(const SP<goost::Sink> &s, const SP<gm::Key> &k, const std::vector<uint64_t> &r)
{
	return std::make_shared<goost::gost89::CFBSink>(s, k, r[0]);
}
#include "cfb_sink.inc"
